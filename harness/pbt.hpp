// pbt.hpp - a small property-based testing runner.
//
// Every random decision of a case is drawn from a recorded *choice sequence*
// (Src::draw).  A case is a pure function of its choice sequence, so replay and
// shrinking work on the sequence alone, whatever structure the generator builds.
//
// Cases run in a forked worker process: a crash, an abort, a sanitizer report or
// a hang of the code under test is an ordinary failing case that shrinks too.
// The worker records choices and notes in shared memory, so they survive it.
//
// With PBT_MPI defined, the worker is an `mpirun -np K` job in which every rank
// generates the same case; rank 0 keeps the shared record.
#ifndef PBT_HPP
#define PBT_HPP

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#ifdef PBT_MPI
#include <mpi.h>
#endif

namespace pbt {

const size_t MAX_CHOICES = 1 << 16;
const size_t MAX_NOTE = 1 << 15;

struct Fail {
  std::string msg;
};
struct Discard {};

struct Shm {
  // parent -> worker
  uint64_t seed, firstCase, nCases, replayMode, nReplay, deadline_ms;
  uint64_t replay[MAX_CHOICES];
  // worker -> parent
  volatile uint64_t heartbeat, evals, discards, failed, caseSeed, caseIndex, done;
  volatile uint64_t nChoices;
  uint64_t choices[MAX_CHOICES];
  volatile uint64_t noteLen;
  char note[MAX_NOTE];
  char msg[8192];
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

inline Shm *&shm() {
  static Shm *p = nullptr;
  return p;
}

struct Stats {
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> hashes;
  uint64_t nontrivial = 0;
};

/// The source of all generated values of one case.
class Src {
  Rng rng;
  bool replaying, record;
  size_t pos = 0;
  const uint64_t *rep;
  size_t nrep;
  uint64_t hash = 1469598103934665603ull;

 public:
  bool isNontrivial = false;
  std::set<std::string> labels;
  std::string localNote;

  Src(uint64_t seed, bool record_) : rng(seed), replaying(false), record(record_), rep(nullptr), nrep(0) {}
  Src(const uint64_t *r, size_t n, bool record_) : rng(0), replaying(true), record(record_), rep(r), nrep(n) {}

  /// uniform in [0,n)
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replaying) {
      v = pos < nrep ? rep[pos] : 0;
      if (v >= n) v = n - 1;
    } else {
      v = rng.next() % n;
    }
    if (pos >= MAX_CHOICES) throw Discard();
    if (record) {
      shm()->choices[pos] = v;
      shm()->nChoices = pos + 1;
    }
    ++pos;
    hash = (hash ^ v) * 1099511628211ull;
    return v;
  }
  /// lo..hi inclusive; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  /// lo..hi inclusive; shrinks towards zero (or the end nearest zero)
  int64_t near0(int64_t lo, int64_t hi) {
    if (lo >= 0) return range(lo, hi);
    if (hi <= 0) return -range(-hi, -lo);
    uint64_t v = draw((uint64_t)(hi - lo) + 1);
    // 0,1,-1,2,-2,... then the longer side
    int64_t m = std::min(hi, -lo);
    if (v <= (uint64_t)(2 * m)) return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
    int64_t e = (int64_t)v - m;
    return hi > -lo ? e : -e;
  }
  /// true with probability num/den; shrinks to false
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  /// mostly small: 0..max
  int64_t small(int64_t max) {
    int64_t cap = max;
    if (max > 4 && !chance(1, 4)) cap = max / 4 + 1;
    return range(0, cap);
  }
  /// a double with a short decimal representation
  double real(double lo, double hi, int steps = 1000) {
    return lo + (hi - lo) * (double)draw(steps + 1) / steps;
  }
  void nontrivial() { isNontrivial = true; }
  void label(const std::string &l) { labels.insert(l); }
  uint64_t digest() const { return hash; }
  void setDigest(uint64_t h) { hash = h; }
  bool isReplay() const { return replaying; }

  void note(const std::string &t) {
    if (record) {
      size_t n = shm()->noteLen, k = std::min(t.size(), MAX_NOTE - 1 - n);
      memcpy(shm()->note + n, t.data(), k);
      shm()->note[n + k] = 0;
      shm()->noteLen = n + k;
    }
  }
};

/// Runs fn(s) in a child process (for code with process-wide state); choices and notes go through shared memory anyway.
template <class F>
void isolated(Src &s, F fn) {
  int fd[2];
  if (pipe(fd) != 0) throw Discard();
  pid_t p = fork();
  if (p < 0) throw Discard();
  if (p == 0) {
    close(fd[0]);
    std::string msg;
    int rc = 42;
    try {
      fn(s);
    } catch (Fail &f) {
      msg = f.msg;
      rc = 43;
    } catch (Discard &) {
      rc = 45;
    } catch (std::exception &e) {
      msg = std::string("unexpected exception: ") + e.what();
      rc = 43;
    } catch (...) {
      msg = "unexpected exception (not derived from std::exception)";
      rc = 43;
    }
    std::ostringstream o;
    o << s.digest() << " " << s.isNontrivial << " " << s.labels.size() << "\n";
    for (auto &l : s.labels) o << l << "\n";
    o << msg;
    std::string all = o.str();
    (void)!::write(fd[1], all.data(), all.size());
    _exit(rc);
  }
  close(fd[1]);
  std::string all;
  char buf[4096];
  for (ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) > 0;) all.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) < 42 || WEXITSTATUS(st) > 45) {
    std::ostringstream o;
    o << "the process died (" << (WIFSIGNALED(st) ? "signal " : "exit status ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ")";
    throw Fail{o.str()};
  }
  std::istringstream in(all);
  uint64_t h = 0;
  size_t n = 0;
  std::string line;
  in >> h >> s.isNontrivial >> n;
  std::getline(in, line);
  s.setDigest(h);
  for (size_t i = 0; i < n && std::getline(in, line); ++i) s.labels.insert(line);
  if (WEXITSTATUS(st) == 45) throw Discard();
  if (WEXITSTATUS(st) == 43) {
    std::ostringstream o;
    o << in.rdbuf();
    throw Fail{o.str()};
  }
}

struct NoteStream {
  Src &s;
  std::ostringstream o;
  explicit NoteStream(Src &s_) : s(s_) {}
  ~NoteStream() { s.note(o.str()); }
  template <class T>
  NoteStream &operator<<(const T &t) {
    o << t;
    return *this;
  }
};
#define NOTE(s) (::pbt::NoteStream(s))

#define PBT_FAIL(expr)                 \
  do {                                 \
    std::ostringstream pbt_os_;        \
    pbt_os_ << expr;                   \
    throw ::pbt::Fail{pbt_os_.str()};  \
  } while (0)
#define CHECK(cond, expr)                                    \
  do {                                                       \
    if (!(cond)) PBT_FAIL("[" #cond "] is false: " << expr); \
  } while (0)

typedef void (*PropFn)(Src &);
struct Prop {
  std::string name;
  PropFn fn;
};
inline std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}
struct Reg {
  Reg(const char *n, PropFn f) { props().push_back(Prop{n, f}); }
};
#define PROPERTY(n)                          \
  static void n(::pbt::Src &);               \
  static ::pbt::Reg pbt_reg_##n(#n, n);      \
  static void n(::pbt::Src &s)

inline uint64_t now_ms() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

inline std::string jsonStr(const std::string &in) {
  std::ostringstream o;
  o << '"';
  for (unsigned char c : in) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c == '\n') o << "\\n";
    else if (c == '\t') o << "\\t";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    } else o << c;
  }
  o << '"';
  return o.str();
}

/// Runs one case. Returns 0 ok, 1 failed (message stored), 2 discarded.
inline int runCase(PropFn fn, Src &s, bool record, std::string &msg) {
  int res = 0;
  try {
    fn(s);
  } catch (Fail &f) {
    msg = f.msg;
    res = 1;
  } catch (Discard &) {
    res = 2;
  } catch (std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    res = 1;
  } catch (...) {
    msg = "unexpected exception (not derived from std::exception)";
    res = 1;
  }
#ifdef PBT_MPI
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  int bad = res == 1 ? rank + 1 : 0, worst = 0;
  MPI_Allreduce(&bad, &worst, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (worst) {
    // the highest failing rank's message goes to rank 0
    char buf[4096];
    memset(buf, 0, sizeof buf);
    if (rank == worst - 1) snprintf(buf, sizeof buf, "rank %d: %s", rank, msg.c_str());
    MPI_Bcast(buf, sizeof buf, MPI_CHAR, worst - 1, MPI_COMM_WORLD);
    msg = buf;
    res = 1;
  }
#endif
  (void)record;
  return res;
}

/// The worker: runs the cases described in the shared record.
inline int workerLoop(PropFn fn, const std::string &statsFile, bool record) {
  Shm *m = shm();
  Stats st;
  if (m->replayMode) {
    if (record) {
      m->nChoices = 0;
      m->noteLen = 0;
      m->note[0] = 0;
    }
    std::vector<uint64_t> rep(m->replay, m->replay + m->nReplay);
    Src s(rep.data(), rep.size(), record);
    std::string msg;
    int r = runCase(fn, s, record, msg);
    if (record) {
      if (r == 1) {
        snprintf(m->msg, sizeof m->msg, "%s", msg.c_str());
        m->failed = 1;
      }
      m->done = 1;
    }
    return r == 1 ? 3 : 0;
  }
  for (uint64_t i = m->firstCase; i < m->firstCase + m->nCases; ++i) {
    uint64_t cs = Rng(m->seed * 0x9E3779B97F4A7C15ull + i * 2654435761ull + 12345).next();
    if (record) {
      m->caseIndex = i;
      m->caseSeed = cs;
      m->nChoices = 0;
      m->noteLen = 0;
      m->note[0] = 0;
      ++m->heartbeat;
    }
    Src s(cs, record);
    std::string msg;
    int r = runCase(fn, s, record, msg);
    if (record) {
      ++m->evals;
      if (r == 2) ++m->discards;
      if (r == 1) {
        snprintf(m->msg, sizeof m->msg, "%s", msg.c_str());
        m->failed = 1;
      }
      for (auto &l : s.labels) ++st.labels[l];
      if (r == 0 && s.isNontrivial) {
        ++st.nontrivial;
        if (st.hashes.size() < 2000000 && st.hashes.insert(s.digest()).second && st.samples.size() < 3 &&
            (st.hashes.size() == 1 || st.hashes.size() == 20 || st.hashes.size() == 200))
          st.samples.push_back(std::string(m->note, std::min<size_t>((size_t)m->noteLen, 1500)));
      }
    }
    if (r == 1) return 3;
  }
  if (record) {
    std::ofstream o(statsFile.c_str());
    o << "{\"evaluations\":" << m->evals << ",\"discards\":" << m->discards << ",\"nontrivial\":" << st.nontrivial
      << ",\"distinct\":" << st.hashes.size() << ",\"labels\":{";
    bool first = true;
    for (auto &l : st.labels) {
      o << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second;
      first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < st.samples.size(); ++i) o << (i ? "," : "") << jsonStr(st.samples[i]);
    o << "],\"hashes\":[";
    first = true;
    size_t k = 0;
    for (uint64_t h : st.hashes) {
      if (++k > 400000) break;
      o << (first ? "" : ",") << h;
      first = false;
    }
    o << "]}\n";
    o.close();
    m->done = 1;
  }
  return 0;
}

struct Options {
  std::string prop, out, replay, shmFile, errFile;
  uint64_t seed = 1, cases = 1000, first = 0;
  uint64_t hangMs = 60000, shrinkMs = 40000;
  int np = 0;
  bool worker = false, verbose = false;
};

struct Outcome {
  bool failed = false, hung = false;
  int sig = 0, code = 0;
  std::string msg;
};

class Runner {
  Options opt;
  PropFn fn;

 public:
  Runner(const Options &o, PropFn f) : opt(o), fn(f) {}

  Outcome launch(uint64_t hangMs, bool keepErr) {
    Shm *m = shm();
    m->heartbeat = m->evals = m->discards = m->failed = m->done = 0;
    m->nChoices = 0;
    m->noteLen = 0;
    m->note[0] = 0;
    m->msg[0] = 0;
    std::cout.flush();
    std::cerr.flush();
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      rlimit rl;
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 256u << 20;  // no runaway output files
      setrlimit(RLIMIT_FSIZE, &rl);
      int fd = open(keepErr && !opt.errFile.empty() ? opt.errFile.c_str() : "/dev/null",
                    O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 2);
      if (!opt.verbose) dup2(fd, 1);
#ifdef PBT_MPI
      std::string np = std::to_string(opt.np);
      std::vector<std::string> a = {"mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none",
                                    "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "btl", "self,vader",
                                    "--mca", "plm", "isolated", "--mca", "mpi_yield_when_idle", "1",
                                    "-np", np, "/proc/self/exe", "--worker", "--prop", opt.prop, "--shm", opt.shmFile,
                                    "--out", opt.out};
      char self[4096];
      ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
      self[n > 0 ? n : 0] = 0;
      for (auto &x : a)
        if (x == "/proc/self/exe") x = self;
      std::vector<char *> av;
      for (auto &x : a) av.push_back(const_cast<char *>(x.c_str()));
      av.push_back(nullptr);
      execvp("mpirun", av.data());
      _exit(97);
#else
      int r = workerLoop(fn, opt.out, true);
      std::cout.flush();
      _exit(r);
#endif
    }
    setpgid(pid, pid);
    Outcome o;
    uint64_t lastBeat = ~0ull, lastT = now_ms();
    int status = 0;
    useconds_t nap = 200;
    for (;;) {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if (w == pid) break;
      if (m->heartbeat != lastBeat) {
        lastBeat = m->heartbeat;
        lastT = now_ms();
      }
      if (now_ms() - lastT > hangMs) {
        o.hung = true;
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        break;
      }
      usleep(nap);
      if (nap < 20000) nap += nap / 4 + 1;
    }
    kill(-pid, SIGKILL);  // stragglers of the job, if any
    if (o.hung) {
      o.failed = true;
      o.msg = "hang: no progress within the time limit";
    } else if (m->failed) {
      o.failed = true;
      o.msg = m->msg;
    } else if (WIFSIGNALED(status)) {
      o.failed = true;
      o.sig = WTERMSIG(status);
      o.msg = std::string("crash: killed by signal ") + strsignal(o.sig);
    } else if (WEXITSTATUS(status) != 0 || !m->done) {
      o.failed = true;
      o.code = WEXITSTATUS(status);
      o.msg = "crash: process ended with status " + std::to_string(o.code) + " (sanitizer report, terminate or exit)";
    }
    return o;
  }

  Outcome tryChoices(const std::vector<uint64_t> &c, uint64_t hangMs, bool keepErr = false) {
    Shm *m = shm();
    m->replayMode = 1;
    m->nReplay = std::min(c.size(), MAX_CHOICES);
    for (size_t i = 0; i < m->nReplay; ++i) m->replay[i] = c[i];
    return launch(hangMs, keepErr);
  }
  std::vector<uint64_t> recorded() {
    Shm *m = shm();
    return std::vector<uint64_t>(m->choices, m->choices + m->nChoices);
  }

  int run() {
    Shm *m = shm();
    m->replayMode = 0;
    m->seed = opt.seed;
    m->firstCase = opt.first;
    m->nCases = opt.cases;
    Outcome o = launch(opt.hangMs, true);
    if (!o.failed) return 0;
    uint64_t evals = m->evals, caseIndex = m->caseIndex;
    std::vector<uint64_t> cur = recorded();
    std::string firstMsg = o.msg;
    std::cout << "case " << caseIndex << " fails: " << o.msg << std::endl;
    // does it fail in isolation?
    uint64_t limit = opt.hangMs;
    Outcome iso = tryChoices(cur, limit);
    bool isolated = iso.failed;
    if (!isolated) {
      // depends on earlier cases of the same process: replay the run itself
      int again = 0;
      for (int k = 0; k < 3; ++k) {
        m->replayMode = 0;
        m->seed = opt.seed;
        m->firstCase = opt.first;
        m->nCases = caseIndex - opt.first + 1;
        if (launch(limit, true).failed) ++again;
      }
      if (again < 3) {
        std::cout << "not reproducible (" << again << "/3): ignored as inconclusive" << std::endl;
        return 4;
      }
      writeReplay("run", cur, firstMsg, evals, caseIndex);
      return 3;
    }
    if (iso.hung) limit = std::min<uint64_t>(limit, 6000);
    shrink(cur, limit);
    int again = 0;
    for (int k = 0; k < 3; ++k) {
      Outcome r = tryChoices(cur, iso.hung ? opt.hangMs / 2 : opt.hangMs, true);
      if (r.failed) {
        ++again;
        firstMsg = r.msg;
      }
    }
    if (again < 3) {
      std::cout << "not reproducible (" << again << "/3): ignored as inconclusive" << std::endl;
      return 4;
    }
    writeReplay("choices", cur, firstMsg, evals, caseIndex);
    return 3;
  }

  void shrink(std::vector<uint64_t> &cur, uint64_t limit) {
    uint64_t t0 = now_ms();
    auto time = [&] { return now_ms() - t0 < opt.shrinkMs; };
    auto attempt = [&](const std::vector<uint64_t> &c) {
      Outcome o = tryChoices(c, limit);
      if (!o.failed) return false;
      // keep the normalised record (trailing unused choices drop off)
      std::vector<uint64_t> rec = recorded();
      std::vector<uint64_t> best = c;
      if (rec.size() < c.size() && (o.msg.compare(0, 5, "crash") != 0)) best = rec;
      cur = best;
      return true;
    };
    bool progress = true;
    while (progress && time()) {
      progress = false;
      for (size_t chunk = std::max<size_t>(1, cur.size() / 2); chunk >= 1 && time(); chunk /= 2) {
        for (size_t i = cur.size(); i-- > 0 && time();) {
          if (i + chunk > cur.size()) continue;
          std::vector<uint64_t> c(cur.begin(), cur.begin() + i);
          c.insert(c.end(), cur.begin() + i + chunk, cur.end());
          if (attempt(c)) {
            progress = true;
            if (i > cur.size()) i = cur.size();
          }
        }
        if (chunk == 1) break;
      }
      for (size_t i = 0; i < cur.size() && time(); ++i) {
        if (cur[i] == 0) continue;
        std::vector<uint64_t> c = cur;
        c[i] = 0;
        if (attempt(c)) {
          progress = true;
          continue;
        }
        uint64_t lo = 0, hi = cur[i];
        while (hi - lo > 1 && time() && i < cur.size()) {
          uint64_t mid = lo + (hi - lo) / 2;
          c = cur;
          c[i] = mid;
          if (attempt(c)) {
            hi = mid;
            progress = true;
          } else lo = mid;
        }
      }
    }
  }

  void writeReplay(const char *kind, const std::vector<uint64_t> &c, const std::string &msg, uint64_t evals,
                   uint64_t caseIndex) {
    Shm *m = shm();
    std::ofstream o((opt.out + ".fail").c_str());
    o << "{\"property_fn\":" << jsonStr(opt.prop) << ",\"kind\":\"" << kind << "\",\"np\":" << opt.np
      << ",\"seed\":" << opt.seed << ",\"first\":" << opt.first << ",\"case\":" << caseIndex
      << ",\"evaluations\":" << evals << ",\"message\":" << jsonStr(msg)
      << ",\"input\":" << jsonStr(std::string(m->note, m->noteLen)) << ",\"choices\":[";
    for (size_t i = 0; i < c.size(); ++i) o << (i ? "," : "") << c[i];
    o << "]}\n";
    std::cout << "minimal failing case: " << msg << "\n" << std::string(m->note, m->noteLen) << std::endl;
  }
};

inline int main(int argc, char **argv) {
  Options opt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") opt.prop = val();
    else if (a == "--out") opt.out = val();
    else if (a == "--err") opt.errFile = val();
    else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") opt.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--first") opt.first = strtoull(val().c_str(), 0, 10);
    else if (a == "--np") opt.np = atoi(val().c_str());
    else if (a == "--hang-ms") opt.hangMs = strtoull(val().c_str(), 0, 10);
    else if (a == "--shrink-ms") opt.shrinkMs = strtoull(val().c_str(), 0, 10);
    else if (a == "--shm") opt.shmFile = val();
    else if (a == "--replay") opt.replay = val();  // file with whitespace separated choices
    else if (a == "--worker") opt.worker = true;
    else if (a == "--verbose") opt.verbose = true;
    else if (a == "--list") {
      for (auto &p : props()) std::cout << p.name << "\n";
      return 0;
    }
  }
  PropFn fn = nullptr;
  for (auto &p : props())
    if (p.name == opt.prop) fn = p.fn;
  if (!fn) {
    std::cerr << "unknown property function " << opt.prop << "\n";
    return 2;
  }
  bool mpi = false;
#ifdef PBT_MPI
  mpi = true;
#endif
  if (opt.worker) {
#ifdef PBT_MPI
    MPI_Init(&argc, &argv);
    int rank;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    int fd = open(opt.shmFile.c_str(), O_RDWR);
    shm() = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    int r = workerLoop(fn, opt.out, rank == 0);
    MPI_Barrier(MPI_COMM_WORLD);
    if (r) _exit(r);
    MPI_Finalize();
    _exit(0);
#endif
  }
  if (mpi) {
    opt.shmFile = opt.out + ".shm";
    int fd = open(opt.shmFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, sizeof(Shm)) != 0) return 2;
    shm() = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else {
    shm() = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  Runner run(opt, fn);
  if (!opt.replay.empty()) {
    std::ifstream in(opt.replay.c_str());
    std::vector<uint64_t> c;
    uint64_t v;
    while (in >> v) c.push_back(v);
    Outcome o = run.tryChoices(c, opt.hangMs, true);
    std::cout << std::string(shm()->note, shm()->noteLen) << std::endl;
    std::cout << (o.failed ? "FAILS: " + o.msg : std::string("holds")) << std::endl;
    return o.failed ? 3 : 0;
  }
  return run.run();
}

}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::main(argc, argv); }
#endif

#endif
