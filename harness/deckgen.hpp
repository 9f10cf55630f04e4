// Generator of setup files as token lists, and the comparison of the library's result with refdeck.hpp.
#ifndef DECKGEN_HPP
#define DECKGEN_HPP

#include "refdeck.hpp"

#include "parser/parser.hpp"
#include "parser/parsertoken.hpp"
#include "variables/blockclasses.hpp"
#include "variables/dependencies.hpp"

namespace deck {

using namespace ref;

// ---- functions known to both sides

static int tick_i = 3;
static double tick_d = 0.5;

static int f_isum(int a, int b) { return (int)((long)a % 10007 + (long)b % 10007); }
static int f_len(std::string s) { return (int)s.size(); }
static std::string f_cat(std::string a, std::string b) { return (a + "|" + b).substr(0, 400); }
static std::string f_rep(int n, std::string s) { return n > 0 && n < 5 ? s.substr(0, 40) + std::to_string(n) : "none"; }
static int f_seven() { return 7; }
static double f_mix(int a, double b, std::string c) { return a * 100.0 + b * 10.0 + c.size(); }
static double f_sub3(double a, double b, double c) { return a - 2 * b - 5 * c; }
static double f_sub4(double a, int b, double c, int d) { return a - 2.0 * b - 5 * c - 11.0 * d; }
static double f_sub6(double a, int b, double c, int d, int e, double f) {
  return a - 2.0 * b - 5 * c - 11.0 * d - 23.0 * e - 47 * f;
}
static std::string f_cat6(std::string a, std::string b, std::string c, std::string d, std::string e, std::string f) {
  return a + "." + b + "." + c + "." + d + "." + e + "." + f;
}
static int f_ticki() { return tick_i; }
static double f_tickd(double x) { return tick_d + x; }

static double m_min(double a, double b) { return b < a ? b : a; }
static double m_max(double a, double b) { return a < b ? b : a; }

inline void addFunctions(schnek::FunctionRegistry &reg) {
  // whoever registers a name last decides what it means
  reg.registerFunction("isum", f_seven, true);
  reg.registerFunction("sub3", f_mix);
  reg.registerFunction("seven", f_isum);
  reg.registerFunction("sin", f_sub3);
  reg.registerFunction("tickd", f_len);
  schnek::registerCMath(reg);
  schnek::registerUtilityFunctions(reg);
  reg.registerFunction("isum", f_isum);
  reg.registerFunction("len", f_len);
  reg.registerFunction("cat", f_cat);
  reg.registerFunction("rep", f_rep);
  reg.registerFunction("seven", f_seven);
  reg.registerFunction("mix", f_mix);
  reg.registerFunction("sub3", f_sub3);
  reg.registerFunction("sub4", f_sub4);
  reg.registerFunction("sub6", f_sub6);
  reg.registerFunction("cat6", f_cat6);
  reg.registerFunction("ticki", f_ticki, true);
  reg.registerFunction("tickd", f_tickd, true);
}

inline const std::map<std::string, Func> &functions() {
  static std::map<std::string, Func> m;
  if (!m.empty()) return m;
  typedef std::vector<Val> A;
  auto d1 = [&](const char *n, double (*f)(double)) {
    m[n] = Func{{FLT}, FLT, false, [f](const A &a) { return Val(f(a[0].d)); }};
  };
  auto d2 = [&](const char *n, double (*f)(double, double)) {
    m[n] = Func{{FLT, FLT}, FLT, false, [f](const A &a) { return Val(f(a[0].d, a[1].d)); }};
  };
  d1("cos", ::cos), d1("sin", ::sin), d1("tan", ::tan), d1("acos", ::acos), d1("asin", ::asin), d1("atan", ::atan);
  d1("cosh", ::cosh), d1("sinh", ::sinh), d1("tanh", ::tanh), d1("exp", ::exp), d1("log", ::log), d1("log10", ::log10);
  d1("sqrt", ::sqrt), d1("ceil", ::ceil), d1("fabs", ::fabs), d1("floor", ::floor);
  d2("atan2", ::atan2), d2("pow", ::pow), d2("fmod", ::fmod), d2("min", m_min), d2("max", m_max);
  m["minI"] = Func{{INT, INT}, FLT, false, [](const A &a) { return Val((double)(a[0].i < a[1].i ? a[0].i : a[1].i)); }};
  m["maxI"] = Func{{INT, INT}, FLT, false, [](const A &a) { return Val((double)(a[0].i < a[1].i ? a[1].i : a[0].i)); }};
  m["ldexp"] = Func{{FLT, INT}, FLT, false, [](const A &a) { return Val(::ldexp(a[0].d, a[1].i)); }};
  m["isum"] = Func{{INT, INT}, INT, false, [](const A &a) { return Val(f_isum(a[0].i, a[1].i)); }};
  m["len"] = Func{{STR}, INT, false, [](const A &a) { return Val(f_len(a[0].s)); }};
  m["cat"] = Func{{STR, STR}, STR, false, [](const A &a) { return Val(f_cat(a[0].s, a[1].s)); }};
  m["rep"] = Func{{INT, STR}, STR, false, [](const A &a) { return Val(f_rep(a[0].i, a[1].s)); }};
  m["seven"] = Func{{}, INT, false, [](const A &) { return Val(7); }};
  m["mix"] = Func{{INT, FLT, STR}, FLT, false, [](const A &a) { return Val(f_mix(a[0].i, a[1].d, a[2].s)); }};
  m["sub3"] = Func{{FLT, FLT, FLT}, FLT, false, [](const A &a) { return Val(f_sub3(a[0].d, a[1].d, a[2].d)); }};
  m["sub4"] = Func{{FLT, INT, FLT, INT}, FLT, false,
                   [](const A &a) { return Val(f_sub4(a[0].d, a[1].i, a[2].d, a[3].i)); }};
  m["sub6"] = Func{{FLT, INT, FLT, INT, INT, FLT}, FLT, false, [](const A &a) {
                     return Val(f_sub6(a[0].d, a[1].i, a[2].d, a[3].i, a[4].i, a[5].d));
                   }};
  m["cat6"] = Func{{STR, STR, STR, STR, STR, STR}, STR, false,
                   [](const A &a) { return Val(f_cat6(a[0].s, a[1].s, a[2].s, a[3].s, a[4].s, a[5].s)); }};
  m["ticki"] = Func{{}, INT, true, [](const A &) { return Val(tick_i); }};
  m["tickd"] = Func{{FLT}, FLT, true, [](const A &a) { return Val(tick_d + a[0].d); }};
  return m;
}

// ---- generator

struct GVar {
  Type t = INT;
  bool assignable = true;
  std::set<GVar *> uses;
  GVar() {}
  GVar(Type t_, bool a) : t(t_), assignable(a) {}
  bool reaches(GVar *w, std::set<GVar *> &seen) {
    if (this == w) return true;
    if (!seen.insert(this).second) return false;
    for (GVar *u : uses)
      if (u->reaches(w, seen)) return true;
    return false;
  }
};

struct GBlk {
  std::string name, cls;
  GBlk *parent = nullptr;
  std::map<std::string, GVar> vars;
  std::vector<std::shared_ptr<GBlk>> kids;
  GVar *find(const std::string &path, bool up = true) {
    size_t c = path.find(':');
    if (c != std::string::npos) {
      for (auto &k : kids)
        if (k->name == path.substr(0, c)) return k->find(path.substr(c + 1), false);
    } else {
      auto v = vars.find(path);
      if (v != vars.end()) return &v->second;
    }
    return up && parent ? parent->find(path, true) : nullptr;
  }
};

struct GenOptions {
  int maxStatements = 8;
  int depth = 3;
  int pBlock = 3, pClose = 2, pAssign = 4, pDecl = 6;
  int sloppy = 40;          // one in `sloppy` choices ignores the rules of the language
  bool names = true;        // colliding names
  size_t longest = 0;       // longest token
  bool strings = true;
  bool castable = true;     // assignments that convert between types
  bool noFail = false;      // no operation that can fail when it is evaluated
  int refBias = 0;          // more references to variables
  bool calm = false;        // nothing that makes numbers large
};

class Gen {
 public:
  pbt::Src &s;
  GenOptions o;
  std::vector<Tok> toks;
  GBlk root;
  GBlk *cur;
  std::function<void(GBlk &)> onBlock;
  std::vector<std::string> varNames{"a", "b", "c", "d", "x", "e", "e1", "int1", "_v", "realm", "E", "f2"};
  std::vector<std::string> blkNames{"A", "B", "C", "a", "e"};
  std::vector<std::string> classes{"C1", "C2", "C3"};

  Gen(pbt::Src &s_, const GenOptions &o_) : s(s_), o(o_), cur(&root) {}

  /// now and then a large file: many names, many statements, deep or with many blocks side by side
  void large(int oneIn = 40) {
    if (!s.chance(1, oneIn)) return;
    for (int i = 0; i < 40; ++i) varNames.push_back("v" + std::to_string(i)), blkNames.push_back("k" + std::to_string(i));
    o.maxStatements = 120;
    if (o.pBlock) {
      if (s.chance(1, 2)) o.pClose = 0;
      else o.pClose = o.pBlock;
    }
    if (s.chance(1, 2)) o.sloppy = 0;
    if (o.depth > 1) o.depth = 1;
  }

  bool sloppy() { return o.sloppy && s.chance(1, o.sloppy); }
  void sym(char c) { toks.push_back(Tok{K_SYM, std::string(1, c)}); }
  void tok(Kind k, const std::string &t) { toks.push_back(Tok{k, t}); }

  std::string ident() {
    std::string n = s.pick(varNames);
    if (o.longest && s.chance(1, 6)) {
      size_t l = (size_t)s.small(o.longest);
      for (size_t i = 0; i < l; ++i) n += "abcdefgh_0123e"[(i * 5 + l) % 14];
    }
    return n;
  }

  struct Ref {
    std::string path;
    GVar *v;
  };
  GVar *target = nullptr;           // the variable being assigned
  std::set<GVar *> used;            // what the current expression refers to
  static void below(GBlk &b, const std::string &prefix, std::vector<std::string> &out, int depth) {
    for (auto &k : b.kids) {
      for (auto &v : k->vars) out.push_back(prefix + k->name + ":" + v.first);
      if (depth > 0) below(*k, prefix + k->name + ":", out, depth - 1);
    }
  }
  std::vector<Ref> visible() {
    std::vector<std::string> n;
    for (GBlk *b = cur; b; b = b->parent)
      for (auto &v : b->vars) n.push_back(v.first);
    for (GBlk *b = cur; b; b = b->parent) below(*b, "", n, 2);
    std::vector<Ref> r;
    for (auto &x : n) {
      GVar *v = cur->find(x);
      if (v) r.push_back({x, v});
    }
    return r;
  }
  std::string someName() {
    std::vector<Ref> v = visible();
    int how = (int)s.range(0, 3);
    std::string n = v.empty() || how == 0 ? s.pick(varNames) : v[s.draw(v.size())].path;
    if (how == 1) n = s.pick(blkNames) + ":" + n;
    if (how == 2 && s.chance(1, 3)) n = s.pick(std::vector<std::string>{n + ":", n + "::x", "_:" + n, n + ":" + n});
    return n;
  }

  void intLit(bool smallOnly = false) {
    std::string t;
    int how = smallOnly || o.calm ? 0 : (int)s.range(0, 31);
    if (how < 24) t = std::to_string(s.range(0, 9));
    else if (how < 28) t = std::to_string(s.range(0, 99));
    else if (how == 28) t = std::to_string(s.range(0, 99999));
    else if (how == 29) t = std::string((size_t)s.small(o.longest ? (int64_t)o.longest : 3), '0') + std::to_string(s.range(0, 50));
    else if (how == 30) t = std::to_string(s.range(2147483000, 2147483647));
    else t = sloppy() ? std::to_string(s.range(2147483648l, 99999999999l)) : "1";
    if (t.size() > 9 && t[0] == '0') {
      // leading zeros are part of the number's text, not of its size
    }
    tok(K_INT, t);
  }
  void fltLit() {
    int how = (int)s.range(0, o.calm ? 3 : 7);
    std::string i = std::to_string(s.range(0, 20)), f = std::to_string(s.range(0, 999)), e = std::to_string(s.range(0, 9));
    std::string t;
    switch (how) {
      case 0: t = i + ".5"; break;
      case 1: t = i + "."; break;
      case 2: t = "." + f; break;
      case 3: t = i + "." + f; break;
      case 4: t = i + "e" + e; break;
      case 5: t = i + "." + f + "E-" + e; break;
      case 6: t = i + ".e+" + e; break;
      default:
        t = i + "." + std::string((size_t)s.small(o.longest ? (int64_t)o.longest : 12), '3') + "1";
        break;
    }
    if (sloppy()) t = s.pick(std::vector<std::string>{".", ".e5", "1e999", "1e-320"});
    tok(K_FLT, t);
  }
  void strLit() {
    char q = s.chance(1, 2) ? '\'' : '"';
    std::string t(1, q);
    int how = (int)s.range(0, 7);
    size_t n = 0;
    switch (how) {
      case 0: t += std::to_string(s.near0(-50, 500)); break;
      case 1: t += std::to_string(s.range(0, 20)) + "." + std::to_string(s.range(0, 99)); break;
      case 2: t += s.pick(std::vector<std::string>{"1e3", "x1", "", "-", "0x", "12 ", "+7", "1.5.2"}); break;
      default:
        n = (size_t)s.range(0, 8);
        if (o.longest && s.chance(1, 4)) n = (size_t)s.small(o.longest);
        size_t k = (size_t)s.range(0, 50);
        static const std::string cs = "ab\\c'\"0 9;{}/*=\n\t\x80x";
        for (size_t i = 0; i < n; ++i) {
          char c = cs[(i * 11 + k * (i + 3)) % cs.size()];
          if (c == q) t += std::string("\\") + c;
          else if (c == '\\') t += std::string("\\") + cs[(i * 3 + k) % cs.size()];
          else t += c;
        }
    }
    t += q;
    tok(K_STR, t);
  }

  Type atMost(Type t) { return (Type)s.range(0, (int)t); }

  void atomic(Type t, int d) {
    std::vector<Ref> fit;
    int how = (int)s.range(0, d > 0 ? 9 : 5);
    if (o.refBias && how < 2 && s.chance(o.refBias, 10)) how = 2;
    if (sloppy()) {
      tok(K_ID, someName());
      return;
    }
    if (how >= 2 && how <= 5) {
      std::vector<Ref> v = visible();
      for (auto &r : v) {
        if (r.v->t != t) continue;
        std::set<GVar *> seen;
        // mostly no circles; a variable may be used for its own new value
        if (target && r.v->reaches(target, seen) && !(o.sloppy && s.chance(1, 40))) continue;
        fit.push_back(r);
      }
      if (!fit.empty()) {
        const Ref &r = fit[s.draw(fit.size())];
        used.insert(r.v);
        tok(K_ID, r.path);
        return;
      }
      how = 0;
    }
    if (how <= 5) {
      if (t == INT) intLit();
      else if (t == FLT) fltLit();
      else strLit();
      return;
    }
    if (how <= 7) {
      sym('(');
      expr(t, d - 1);
      sym(')');
      return;
    }
    std::vector<std::string> names;
    for (auto &f : functions())
      if (f.second.ret == t && !(o.calm && !calmFunc(f.first))) names.push_back(f.first);
    std::string fn = names[s.draw(names.size())];
    call(fn, d);
  }
  static bool calmFunc(const std::string &f) {
    static const std::set<std::string> ok = {"cos", "sin", "atan", "tanh", "fabs", "floor", "ceil", "min", "max", "minI", "maxI", "isum", "len",
                                             "cat", "rep", "seven", "mix", "sub3", "sub4", "sub6", "ticki", "tickd"};
    return ok.count(f) > 0;
  }
  void call(const std::string &fn, int d) {
    const Func &f = functions().find(fn)->second;
    tok(K_ID, sloppy() ? someName() : fn);
    sym('(');
    size_t n = f.args.size();
    if (sloppy()) n = (size_t)s.range(0, 3);
    for (size_t i = 0; i < n; ++i) {
      if (i) sym(',');
      Type want = i < f.args.size() ? f.args[i] : INT;
      // any numeric type is converted, text only when it is a number
      expr(want == STR || s.chance(1, 12) ? (o.noFail && want != STR ? atMost(FLT) : atMost(STR)) : atMost(FLT), d - 1);
    }
    sym(')');
  }
  void power(Type t, int d) {
    if (t == STR || o.calm || !s.chance(1, 6)) {
      atomic(t, d);
      return;
    }
    bool first = s.chance(1, 2);
    atomic(first ? t : atMost(t), d);
    sym('^');
    if (s.chance(1, 3)) sym(s.chance(1, 2) ? '-' : '+');
    Type r = first ? atMost(t) : t;
    if (r == INT && s.chance(3, 4)) intLit(true);
    else atomic(r, d);
  }
  void term(Type t, int d) {
    int n = s.chance(1, o.calm ? 6 : 3) ? (int)s.range(2, o.calm ? 2 : 4) : 1;
    if (t == STR && !s.chance(1, 10)) n = 1;
    int exact = (int)s.range(0, n - 1);
    for (int i = 0; i < n; ++i) {
      if (i) {
        char op = s.chance(1, 2) ? '/' : '*';
        if (o.noFail && t != FLT && op == '/') op = '*';
        if (o.noFail && op == '/') {
          // keep integers away from a divisor
          sym(op);
          power(FLT, d);
          continue;
        }
        sym(op);
      }
      power(i == exact || (o.noFail && t == FLT) ? t : atMost(t), d);
    }
  }
  void expr(Type t, int d) {
    if (s.chance(1, 5)) sym(t != STR && s.chance(3, 4) ? '-' : '+');
    int n = s.chance(1, 2) ? (int)s.range(2, 4) : 1;
    int exact = (int)s.range(0, n - 1);
    for (int i = 0; i < n; ++i) {
      if (i) sym(t == STR ? (s.chance(1, 12) ? '-' : '+') : s.chance(1, 2) ? '-' : '+');
      term(i == exact ? t : atMost(t), d);
    }
  }

  Type anyType() {
    int k = (int)s.range(0, o.strings ? 5 : 3);
    return k < 2 ? FLT : k < 4 ? INT : STR;
  }

  void declaration() {
    Type t = anyType();
    static const char *kw[3][3] = {{"int", "integer", "int"}, {"float", "double", "real"}, {"string", "string", "string"}};
    tok(K_TYPE, kw[t][s.draw(3)]);
    int n = s.chance(1, 5) ? (int)s.range(2, 3) : 1;
    std::vector<std::string> made;
    used.clear();
    target = nullptr;
    for (int i = 0; i < n; ++i) {
      if (i) sym(',');
      std::string name;
      for (int k = 0; k < 20; ++k) {
        name = ident();
        if (!cur->vars.count(name) && std::find(made.begin(), made.end(), name) == made.end()) break;
        if (sloppy()) break;
      }
      tok(K_ID, name);
      if (sloppy()) continue;
      sym('=');
      expr(sloppy() ? anyType() : t, o.depth);
      made.push_back(name);
    }
    sym(';');
    for (auto &m : made)
      if (!cur->vars.count(m)) {
        cur->vars[m] = GVar(t, true);
        cur->vars[m].uses = used;
      }
  }
  void assignment() {
    std::vector<Ref> v, all = visible();
    for (auto &r : all)
      if (r.v->assignable || sloppy()) v.push_back(r);
    if (v.empty() && !sloppy()) {
      declaration();
      return;
    }
    Ref r{someName(), nullptr};
    if (!v.empty() && !sloppy()) r = v[s.draw(v.size())];
    tok(K_ID, r.path);
    sym('=');
    Type t = r.v ? r.v->t : INT;
    if (o.castable && s.chance(1, 3)) t = s.chance(1, 4) ? anyType() : (Type)s.range(0, 1);
    if (o.noFail && t == STR && r.v && r.v->t != STR) t = r.v->t;
    target = r.v;
    used.clear();
    expr(t, o.depth);
    sym(';');
    if (r.v) r.v->uses = used, r.v->uses.erase(r.v);
    target = nullptr;
  }
  void open() {
    std::string cls = s.pick(classes), name = s.chance(1, 4) ? cls : s.pick(blkNames);
    bool twice = o.sloppy && s.chance(1, 6);  // a name clash is left as it is
    for (auto &k : cur->kids)
      if (k->name == name && !twice) {
        name += std::to_string(s.range(0, 9));
        break;
      }
    bool dup = false;
    for (auto &k : cur->kids) dup = dup || k->name == name;
    if (dup && !twice) {
      declaration();
      return;
    }
    tok(K_ID, cls);
    if (name != cls || s.chance(1, 2)) tok(K_ID, name);
    sym('{');
    std::shared_ptr<GBlk> b(new GBlk);
    b->name = name;
    b->cls = cls;
    b->parent = cur;
    cur->kids.push_back(b);
    cur = b.get();
    if (onBlock) onBlock(*b);
  }
  void close() {
    if (!cur->parent && !sloppy()) {
      open();
      return;
    }
    sym('}');
    if (cur->parent) cur = cur->parent;
  }
  void program() {
    if (onBlock) onBlock(root);
    int n = (int)s.range(1, o.maxStatements);
    for (int i = 0; i < n; ++i) {
      int k = (int)s.range(0, o.pDecl + o.pAssign + o.pBlock + o.pClose - 1);
      if (k < o.pDecl) declaration();
      else if ((k -= o.pDecl) < o.pAssign) assignment();
      else if ((k -= o.pAssign) < o.pBlock) open();
      else close();
    }
    while (cur->parent) {
      if (sloppy()) break;
      sym('}');
      cur = cur->parent;
    }
  }

  /// one random change of the token list
  void mutate() {
    size_t n = toks.size();
    size_t i = s.draw(n);
    static const std::string syms = "=;{}(),+-*/^";
    auto randomTok = [&] {
      int k = (int)s.range(0, 6);
      switch (k) {
        case 0: return Tok{K_ID, someName()};
        case 1: return Tok{K_INT, std::to_string(s.range(0, 9))};
        case 2: return Tok{K_TYPE, s.pick(std::vector<std::string>{"int", "float", "string"})};
        case 3: return Tok{K_FLT, "1.5"};
        case 4: return Tok{K_STR, "'s'"};
        default: return Tok{K_SYM, std::string(1, syms[s.draw(syms.size())])};
      }
    };
    switch (s.range(0, 5)) {
      case 0: toks.erase(toks.begin() + i); break;
      case 1: toks.insert(toks.begin() + i, toks[i]); break;
      case 2: toks.insert(toks.begin() + i, randomTok()); break;
      case 3: toks[i] = randomTok(); break;
      case 4:
        if (i + 1 < n) std::swap(toks[i], toks[i + 1]);
        break;
      default: toks.resize(i + 1); break;
    }
  }
};

// ---- running the library

struct Outcome {
  bool ok = false;
  bool parserError = false;
  std::string file, message;
  int line = 0;
};

inline Val toVal(const schnek::ValueVariant &v) {
  if (const int *i = boost::get<int>(&v)) return Val(*i);
  if (const double *d = boost::get<double>(&v)) return Val(*d);
  return Val(boost::get<std::string>(v));
}
inline Type typeOf(schnek::Variable &v) {
  return v.getType() == schnek::Variable::int_type ? INT : v.getType() == schnek::Variable::float_type ? FLT : STR;
}

template <class F>
inline Outcome guarded(F f) {
  Outcome r;
  try {
    f();
    r.ok = true;
  } catch (schnek::ParserError &e) {
    r.parserError = true;
    r.file = e.getFilename();
    r.line = e.getLine();
    r.message = "ParserError(" + e.message + ")";
  } catch (schnek::EvaluationException &e) {
    r.message = "EvaluationException(" + e.getMessage() + ")";
  } catch (SchnekException &) {
    r.message = "SchnekException";
  }
  return r;
}

inline std::string path(const Blk &b) { return b.parent ? path(*b.parent) + "/" + b.name : "."; }

inline void compare(Blk &b, schnek::pBlockVariables v) {
  CHECK(v->getVariables().size() == b.vars.size(),
        path(b) << " has " << v->getVariables().size() << " variables, expected " << b.vars.size());
  for (auto &x : b.vars) {
    auto it = v->getVariables().find(x.first);
    CHECK(it != v->getVariables().end(), "variable " << x.first << " is missing in " << path(b));
    schnek::Variable &got = *it->second;
    Var &want = *x.second;
    CHECK(typeOf(got) == want.t, "type of " << x.first << " in " << path(b) << ": " << typeName(typeOf(got)) << ", expected " << typeName(want.t));
    CHECK(got.isConstant() == (want.constant && !want.external()), "isConstant() of " << x.first << " in " << path(b) << " is " << got.isConstant());
    CHECK(got.isInitialised() == want.init, "isInitialised() of " << x.first << " in " << path(b) << " is " << got.isInitialised());
    if (want.external()) {
      CHECK(same(toVal(got.getValue()), want.ext()), "value of " << x.first << " in " << path(b) << ": "
            << toVal(got.getValue()).show() << ", expected " << want.ext().show());
      continue;
    }
    if (!want.defined || !want.init) continue;
    Val g = toVal(got.getValue());
    CHECK(same(g, want.val), "value of " << x.first << " in " << path(b) << ": " << g.show() << ", expected " << want.val.show());
  }
  CHECK(v->getChildren().size() == b.kids.size(), path(b) << " has " << v->getChildren().size() << " blocks, expected " << b.kids.size());
  auto it = b.kids.begin();
  for (schnek::pBlockVariables k : v->getChildren()) {
    CHECK(k->getBlockName() == (*it)->name && k->getClassName() == (*it)->cls,
          "block " << k->getClassName() << " " << k->getBlockName() << " inside " << path(b) << ", expected " << (*it)->cls << " " << (*it)->name);
    CHECK(k->getParent() == v, "parent of block " << k->getBlockName());
    compare(**it, k);
    ++it;
  }
}

inline bool allowed(const Problems &pr, const Outcome &o, const std::string &file) {
  for (auto &p : pr) {
    if (!p.parser) return true;  // reported by any exception of the library
    if (o.parserError && o.file == file && o.line >= p.from && o.line <= p.to) return true;
  }
  return false;
}
inline std::string show(const Problems &pr) {
  std::ostringstream o;
  for (auto &p : pr) {
    o << "[" << p.what;
    if (p.parser) o << ", ParserError at line " << p.from << ".." << (p.to > 500000 ? "end" : std::to_string(p.to));
    o << "] ";
  }
  return o.str();
}

inline std::string shorten(const std::string &t) {
  if (t.size() < 1500) return t;
  return t.substr(0, 700) + "\n...(" + std::to_string(t.size()) + " characters)...\n" + t.substr(t.size() - 700);
}

}  // namespace deck
#endif
