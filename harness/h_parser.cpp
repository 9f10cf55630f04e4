// The setup-file language: values, layout, scoping, errors.
#include "deckgen.hpp"
#include "parser/deckscanner.hpp"
#include <cmath>
#include <cstring>

using namespace deck;

namespace {

struct World {
  int ei, ej;
  double ed;
  std::string es;
  World() : ei(4), ej(-3), ed(2.5), es("text") {}
};

/// the variables that exist before the file is read
void predefine(World &w, schnek::VariableStorage &vars) {
  using namespace schnek;
  vars.addVariable("ei", pVariable(new Variable(pIntExpression(new ExternalValue<int>(&w.ei)), true, true)));
  vars.addVariable("ed", pVariable(new Variable(pFloatExpression(new ExternalValue<double>(&w.ed)), true, true)));
  vars.addVariable("es", pVariable(new Variable(pStringExpression(new ExternalValue<std::string>(&w.es)), true, true)));
  vars.addVariable("PI", pVariable(new Variable(3.25, true, true)));
  vars.addVariable("N", pVariable(new Variable(12)));
}
void predefine(World &w, Deck &d) {
  auto add = [&](const char *n, Type t) {
    PVar v(new Var);
    v->name = n;
    v->t = t;
    d.root.vars[n] = v;
    return v;
  };
  PVar v = add("ei", INT);
  v->pi = &w.ei, v->readonly = true, v->constant = false;
  v = add("ed", FLT);
  v->pd = &w.ed, v->readonly = true, v->constant = false;
  v = add("es", STR);
  v->ps = &w.es, v->readonly = true, v->constant = false;
  v = add("PI", FLT);
  v->val = Val(3.25), v->readonly = true;
  v = add("N", INT);
  v->val = Val(12);
}
void predefine(Gen &g, bool ext) {
  if (ext) {
    g.root.vars["ei"] = {INT, false};
    g.root.vars["ed"] = {FLT, false};
    g.root.vars["es"] = {STR, false};
  }
  g.root.vars["PI"] = {FLT, false};
  g.root.vars["N"] = {INT, true};
}

struct Classes {
  bool restricted = false;
  int flavour = 0;  // which way the parser is set up
  std::map<std::string, std::set<std::string>> allowed;
  std::set<std::string> registered;
};

Classes genClasses(pbt::Src &s, const std::vector<std::string> &classes) {
  Classes c;
  c.restricted = s.chance(1, 2);
  c.flavour = (int)s.range(0, 7);
  if (!c.restricted) return c;
  std::vector<std::string> all = classes;
  all.insert(all.begin(), "main");
  for (auto &p : all) {
    if (p != "main" && s.chance(1, 8)) continue;
    c.registered.insert(p);
    for (auto &k : classes)
      if (!s.chance(1, 6)) c.allowed[p].insert(k);
  }
  return c;
}

struct Run {
  World w;
  schnek::VariableStorage vars;
  schnek::FunctionRegistry reg;
  schnek::BlockClasses bc;
  std::shared_ptr<schnek::Parser> parser;
  Outcome out;
  Run(const std::string &text, const Classes &c, const std::string &file = "deck.in") : vars("top", "main"), bc(c.restricted) {
    // the parser shares functions, variables and classes with the objects it was made from, so they may come later
    bool late = c.flavour & 1;
    schnek::ParserSettings settings("top", "main");
    int ctor = c.flavour >> 1;
    if (ctor == 1 && c.restricted) {
      vars = settings.variables, reg = settings.funcReg;
      if (late) parser.reset(new schnek::Parser(settings));
    } else if (ctor == 2 && !c.restricted) {
      if (late) parser.reset(new schnek::Parser(vars, reg));
    } else if (ctor == 3) {
      parser.reset(new schnek::Parser("top", "main", bc));
      vars = parser->getVariableStorage(), reg = parser->getFunctionRegistry();
    } else {
      ctor = 0;
      if (late) parser.reset(new schnek::Parser(vars, reg, bc));
    }
    addFunctions(reg);
    predefine(w, vars);
    schnek::BlockClasses bcs(ctor == 1 ? settings.blockClasses : ctor == 2 && late ? parser->getBlockClasses() : bc);
    for (auto &r : c.registered) {
      schnek::BlockClassDescriptor &d = ctor == 1 ? settings.addBlockClass(r) : bcs.registerBlock(r);
      if (c.allowed.find(r) == c.allowed.end()) continue;
      const std::set<std::string> &kids = c.allowed.find(r)->second;
      auto k = kids.begin();
      if (kids.size() >= 3 && late) {
        schnek::BlockClassDescriptor::BlockClassChildAdder add = d.addChildren(*k++);
        add(*k++)(*k++);
      } else if (kids.size() >= 2 && !late) {
        d.addChildren(*k)(*std::next(k));
        ++k, ++k;
      }
      for (; k != kids.end(); ++k) (ctor == 1 ? settings.getBlock(r) : bcs(r)).addChildren(*k);
    }
    if (!parser) {
      if (ctor == 1) parser.reset(new schnek::Parser(settings));
      else if (ctor == 2) parser.reset(new schnek::Parser(vars, reg));
      else parser.reset(new schnek::Parser(vars, reg, bc));
    }
    std::istringstream in(text);
    out = guarded([&] { parser->parse(in, file); });
  }
};

struct RefRun {
  World w;
  Deck d;
  bool ok = false;
  Problems pr;
  RefRun(const std::vector<Tok> &toks, const Classes &c) {
    d.funcs = functions();
    d.root.name = "top";
    d.root.cls = "main";
    d.restricted = c.restricted;
    d.allowed = c.allowed;
    d.allowed["main"];
    for (auto &r : c.registered) d.allowed[r];
    predefine(w, d);
    try {
      d.run(toks);
      ok = true;
    } catch (Problems &p) {
      pr = p;
    }
  }
};

void agree(const RefRun &want, Run &got, const std::string &file = "deck.in") {
  if (want.ok) {
    CHECK(got.out.ok, "a correct file is rejected with " << got.out.message << " line " << got.out.line);
    compare(const_cast<RefRun &>(want).d.root, got.vars.getRootBlock());
  } else {
    CHECK(!got.out.ok, "accepted, although it has an error: " << show(want.pr));
    CHECK(allowed(want.pr, got.out, file), "reported as " << got.out.message << " in " << got.out.file << " line " << got.out.line << ", expected " << show(want.pr));
  }
}

int nOps(const std::vector<Tok> &t) {
  int n = 0;
  for (auto &x : t) n += x.k == K_SYM && std::string("+-*/^(").find(x.text[0]) != std::string::npos;
  return n;
}

}  // namespace

/// values of expressions, constant and live
PROPERTY(parser_values) {
  GenOptions o;
  o.maxStatements = 6;
  o.pBlock = 1;
  o.pClose = 1;
  o.sloppy = 3000;
  o.depth = (int)s.range(0, 3);
  Gen g(s, o);
  g.large();
  predefine(g, s.chance(3, 4));
  g.program();
  Layout lay;
  lay.wild = s.chance(1, 4);
  lay.longest = 6;
  std::string text = render(s, g.toks, lay, s.chance(1, 2));
  NOTE(s) << shorten(text) << "\n";
  Classes c;
  RefRun want(g.toks, c);
  Run got(text, c);
  agree(want, got);
  if (want.ok && nOps(g.toks) >= 2) s.nontrivial();
  s.label(want.ok ? "accepted" : "rejected: " + want.pr[0].what.substr(0, 14));
  if (!want.ok) return;
  // the program's variables change: everything that depends on them follows
  bool live = false;
  schnek::DependencyMap dm(got.vars.getRootBlock());
  for (int k = 0; k < 2; ++k) {
    got.w.ei = want.w.ei = (int)s.near0(-5, 20);
    got.w.ed = want.w.ed = s.real(-4, 4, 64);
    got.w.es = want.w.es = s.pick(std::vector<std::string>{"", "7", "zz", "1.5"});
    tick_i = (int)s.range(0, 9);
    dm.updateAll();
    want.d.finish();
    compare(want.d.root, got.vars.getRootBlock());
    std::vector<PVar> nc;
    want.d.collect(want.d.root, nc);
    live = live || nc.size() > 3;
  }
  if (live) s.label("live expressions");
}

/// all live variables recomputed together, whichever of them cannot be computed at the moment
PROPERTY(parser_live) {
  GenOptions o;
  o.maxStatements = 14;
  o.pBlock = 3;
  o.pClose = 1;
  o.pDecl = 8;
  o.pAssign = 2;
  o.sloppy = 0;
  o.calm = true;
  o.refBias = 8;
  o.depth = (int)s.range(0, 2);
  Gen g(s, o);
  g.large();
  predefine(g, true);
  g.program();
  Layout lay;
  lay.wild = false;
  lay.longest = 6;
  std::string text = render(s, g.toks, lay, true);
  NOTE(s) << shorten(text) << "\n";
  Classes c;
  RefRun want(g.toks, c);
  Run got(text, c);
  if (!want.ok || !got.out.ok) throw pbt::Discard();
  struct Live {
    PVar want;
    schnek::pVariable got;
    std::string name;
  };
  std::vector<Live> live;
  std::function<void(Blk &, schnek::pBlockVariables)> walk = [&](Blk &b, schnek::pBlockVariables v) {
    for (auto &x : b.vars) {
      auto it = v->getVariables().find(x.first);
      if (it == v->getVariables().end() || x.second->constant || x.second->external() || it->second->isConstant()) continue;
      live.push_back({x.second, it->second, x.first + " in " + path(b)});
    }
    auto k = b.kids.begin();
    for (schnek::pBlockVariables ch : v->getChildren())
      if (k != b.kids.end()) walk(**k++, ch);
  };
  walk(want.d.root, got.vars.getRootBlock());
  if (live.empty()) return;
  schnek::DependencyMap dm(got.vars.getRootBlock());
  int failing = 0, n = (int)s.range(1, 4);
  for (int k = 0; k < n; ++k) {
    if (k == 0 || s.chance(2, 3)) got.w.ei = want.w.ei = s.chance(1, 2) ? 0 : (int)s.near0(-3, 3);
    if (s.chance(2, 3)) got.w.ed = want.w.ed = s.real(-4, 4, 64);
    if (s.chance(2, 3)) got.w.es = want.w.es = s.pick(std::vector<std::string>{"", "7", "zz", "1.5"});
    if (s.chance(1, 2)) tick_i = (int)s.range(0, 9);
    NOTE(s) << "ei=" << got.w.ei << " ed=" << got.w.ed << " es=\"" << got.w.es << "\" update\n";
    if (s.chance(1, 6)) dm.recreate();
    dm.updateAll();
    want.d.finish();
    for (auto &l : live) {
      if (!l.want->defined) ++failing;
      if (!l.want->defined || !l.want->init) continue;
      Val v = toVal(l.got->getValue());
      CHECK(same(v, l.want->val), "after the update " << l.name << " is " << v.show() << ", expected " << l.want->val.show());
    }
  }
  if (live.size() >= 2) s.nontrivial();
  s.label(failing ? "some variables cannot be computed" : "all can be computed");
}

/// blocks, paths, access rights, duplicate names
PROPERTY(parser_scopes) {
  GenOptions o;
  o.maxStatements = 16;
  o.pBlock = 6;
  o.pClose = 4;
  o.pDecl = 6;
  o.pAssign = 6;
  o.sloppy = (int)s.pick(std::vector<int>{0, 20, 60, 200});
  o.depth = 1;
  Gen g(s, o);
  g.large();
  if (g.varNames.size() < 40) g.varNames = {"a", "b", "A", "B", "x"};
  predefine(g, true);
  g.program();
  Classes c = genClasses(s, g.classes);
  Layout lay;
  lay.wild = false;
  std::string text = render(s, g.toks, lay, true);
  NOTE(s) << shorten(text) << "\n";
  if (c.restricted) {
    NOTE(s) << "allowed:";
    for (auto &p : c.registered) {
      NOTE(s) << " " << p << "{";
      for (auto &k : c.allowed[p]) NOTE(s) << k << " ";
      NOTE(s) << "}";
    }
  }
  RefRun want(g.toks, c);
  Run got(text, c);
  agree(want, got);
  s.label(want.ok ? "accepted" : "rejected: " + want.pr[0].what.substr(0, 14));
  if (!want.ok) {
    s.nontrivial();
    return;
  }
  // lookups through the programming interface
  struct Walk {
    static void run(pbt::Src &s, Blk &b, schnek::pBlockVariables v, std::map<Var *, schnek::Variable *> &id) {
      for (auto &x : b.vars) id[x.second.get()] = v->getVariables().find(x.first)->second.get();
      auto it = v->getChildren().begin();
      for (auto &k : b.kids) run(s, *k, *it++, id);
    }
    static void look(pbt::Src &s, Blk &b, schnek::pBlockVariables v, std::map<Var *, schnek::Variable *> &id,
                     const std::vector<std::string> &names) {
      for (int i = 0; i < 4; ++i) {
        std::string p;
        int n = (int)s.range(1, 3);
        for (int k = 0; k < n; ++k) p += (k ? ":" : "") + s.pick(names);
        PVar w = b.find(p);
        CHECK(v->exists(p) == !!w, "exists(\"" << p << "\") from " << path(b) << " is " << v->exists(p));
        schnek::Variable *g = nullptr;
        try {
          g = v->getVariable(p).get();
        } catch (schnek::VariableNotFoundException &) {
        }
        CHECK(!!g == !!w, "getVariable(\"" << p << "\") from " << path(b) << (w ? " does not find it" : " finds something"));
        CHECK(!w || g == id[w.get()], "getVariable(\"" << p << "\") from " << path(b) << " finds another variable");
      }
      auto it = v->getChildren().begin();
      for (auto &k : b.kids) look(s, *k, *it++, id, names);
    }
  };
  std::map<Var *, schnek::Variable *> id;
  Walk::run(s, want.d.root, got.vars.getRootBlock(), id);
  std::vector<std::string> names = {"a", "b", "A", "B", "C", "x", "e", "C1", "C2", "ei"};
  if (want.d.root.kids.size() > 5 || g.varNames.size() > 20)
    for (int i = 0; i < 12; ++i) names.push_back((i % 2 ? "k" : "v") + std::to_string(s.range(0, 39)));
  for (auto &k : want.d.root.kids)
    if (s.chance(1, 2)) names.push_back(k->name);
  Walk::look(s, want.d.root, got.vars.getRootBlock(), id, names);
  if (!want.d.root.kids.empty()) s.nontrivial();
}

/// the layout of the file does not matter, however long its parts are
PROPERTY(parser_layout) {
  GenOptions o;
  o.maxStatements = 5;
  o.sloppy = s.chance(1, 2) ? 0 : 60;
  o.depth = 2;
  o.longest = (size_t)s.pick(std::vector<int>{0, 20, 150, 300, 1200, 5000});
  Gen g(s, o);
  g.large();
  predefine(g, true);
  g.program();
  if (s.chance(1, 5)) g.mutate();
  if (g.toks.empty()) throw pbt::Discard();
  Classes c;
  Layout plain, wild;
  plain.wild = false;
  wild.longest = (size_t)s.pick(std::vector<int>{3, 130, 140, 260, 1100, 4000});
  std::vector<Tok> t1 = g.toks, t2 = g.toks;
  std::string one = render(s, t1, plain, s.chance(1, 2));
  std::string two = render(s, t2, wild, s.chance(1, 2));
  // what may follow the last token
  switch (s.range(0, 6)) {
    case 0: two += " // end"; break;
    case 1: two += " /* end */"; break;
    case 2: two += "\n\n \t\r\n"; break;
    case 3: two += " //"; break;
    case 4: two += " // " + std::string((size_t)s.small(500), '-') + "\n"; break;
    default: break;
  }
  if (s.chance(1, 6)) two = "// " + std::string((size_t)s.small(600), '=') + "\n" + two, std::for_each(t2.begin(), t2.end(), [](Tok &t) { ++t.line, ++t.first; });
  NOTE(s) << shorten(two) << "\n";
  RefRun w1(t1, c), w2(t2, c);
  Run g1(one, c), g2(two, c);
  CHECK(g1.out.ok == g2.out.ok, "on one line: " << (g1.out.ok ? "accepted" : g1.out.message) << ", laid out: " << (g2.out.ok ? "accepted" : g2.out.message));
  agree(w1, g1);
  agree(w2, g2);
  if (two.size() > 128 + one.size() / 4) s.nontrivial();
  s.label(two.size() > 1000 ? "over 1000 characters" : two.size() > 128 ? "over 128 characters" : "short");
}

/// a mistake is reported with the name of the file and the line
PROPERTY(parser_errors) {
  GenOptions o;
  o.maxStatements = 7;
  o.sloppy = s.chance(1, 2) ? 0 : 25;
  o.depth = 2;
  Gen g(s, o);
  g.large();
  predefine(g, true);
  g.program();
  int m = (int)s.range(0, 2);
  for (int i = 0; i < m && !g.toks.empty(); ++i) g.mutate();
  if (g.toks.empty()) throw pbt::Discard();
  Classes c = genClasses(s, g.classes);
  Layout lay;
  lay.longest = 40;
  std::string text = render(s, g.toks, lay, s.chance(1, 2));
  std::string file = s.pick(std::vector<std::string>{"deck.in", "some dir/setup.txt", ""});
  NOTE(s) << shorten(text) << "\n";
  RefRun want(g.toks, c);
  Run got(text, c, file);
  agree(want, got, file);
  if (!want.ok) s.nontrivial();
  s.label(want.ok ? "accepted" : want.pr[0].parser ? "rejected with line" : "rejected");
  // a character or a string that does not belong: placed between two tokens of a good file
  if (!want.ok || c.restricted) return;
  size_t at = s.draw(g.toks.size());
  static const std::string bad = "!#$%&?@[]|~`:<>\\";
  int kind = (int)s.range(0, 3);
  std::string ins = kind == 0 ? std::string(1, bad[s.draw(bad.size())]) : kind == 1 ? "\"open" : kind == 2 ? "'open\n\n" : "/* open\n";
  // rebuilt with every token on its own line: the line of the insertion is known
  std::string t2;
  for (size_t i = 0; i <= at; ++i) t2 += g.toks[i].text + "\n";
  int line = 1 + (int)std::count(t2.begin(), t2.end(), '\n');
  t2 += ins + (kind == 0 ? "\n" : "");
  for (size_t i = at + 1; i < g.toks.size(); ++i) {
    if (kind == 1 && g.toks[i].text.find('"') != std::string::npos) return;
    if (kind == 2 && g.toks[i].text.find('\'') != std::string::npos) return;
    if (g.toks[i].text.find("*/") != std::string::npos) return;
    if (g.toks[i].text.find('\\') != std::string::npos) return;
    if (i + 1 < g.toks.size() && g.toks[i].is('*') && g.toks[i + 1].is('/')) return;
    t2 += g.toks[i].text + "\n";
  }
  NOTE(s) << "--- with an illegal character or open string:\n" << t2 << "\n";
  Run r2(t2, c, file);
  CHECK(!r2.out.ok, "accepted with an illegal character or an open string/comment");
  CHECK(r2.out.parserError && r2.out.file == file, "reported as " << r2.out.message << " file " << r2.out.file);
  if (kind == 0) CHECK(r2.out.line == line, "illegal character in line " << line << " reported in line " << r2.out.line);
}

/// the tokens found by the scanner, also when a scanner is used several times
PROPERTY(scanner_tokens) {
  static const std::vector<std::string> files = {"deck.in", "", "a dir/x"};
  std::string file = s.pick(files);
  schnek::DeckScanner sc(file);
  struct Want {
    int token;
    std::string str;
    int from, to;
    bool own;
  };
  std::list<Want> want;
  int rounds = (int)s.range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    std::vector<Tok> toks;
    int n = (int)s.small(14);
    for (int i = 0; i < n; ++i) {
      Tok t;
      switch (s.range(0, 5)) {
        case 0: t.k = K_SYM, t.text = std::string(1, "+-*/^;{},=()"[s.draw(12)]); break;
        case 1: t.k = K_TYPE, t.text = s.pick(std::vector<std::string>{"int", "integer", "float", "double", "real", "string"}); break;
        case 2: t.k = K_INT, t.text = std::to_string(s.small(1 << 30)); break;
        case 3: t.k = K_FLT, t.text = s.pick(std::vector<std::string>{"1.5", ".25", "2.", "1e5", "3.5e-7", "0.1E+3"}); break;
        case 4: {
          t.k = K_STR;
          std::string body((size_t)s.small(40), 'k');
          for (auto &ch : body) ch = "abc 1;{}/*\n"[s.draw(11)];
          t.text = "\"" + body + "\"";
          break;
        }
        default:
          t.k = K_ID;
          t.text = s.pick(std::vector<std::string>{"a", "b7", "integers", "a:b", "doubles", "floats", "e", "E1", "x_y", "string_", "in", "Int"});
          if (s.chance(1, 12)) t.text += std::string((size_t)s.small(300), 'q');
      }
      toks.push_back(t);
    }
    Layout lay;
    lay.wild = true;
    lay.longest = 20;
    std::string text = render(s, toks, lay, s.chance(1, 2));
    NOTE(s) << "scan " << r << ": " << shorten(text) << "\n";
    std::istringstream in(text);
    bool fresh = r == 0 ? s.chance(1, 2) : s.chance(1, 3);
    if (fresh && s.chance(1, 2)) sc.scan(&in);
    else sc.scan(&in, fresh);
    if (fresh) want.clear();
    std::list<Want> now;
    for (auto &t : toks) {
      Want w;
      w.from = t.first, w.to = t.line, w.own = fresh;
      w.str = t.k == K_SYM || t.k == K_TYPE ? "" : t.k == K_STR ? t.text.substr(1, t.text.size() - 2) : t.text;
      switch (t.k) {
        case K_SYM: {
          static const std::map<char, int> m = {{'+', PLUS}, {'-', MINUS}, {'*', TIMES}, {'/', DIVIDE}, {'^', EXPONENT}, {';', SEMICOLON},
                                                {'{', LBRACE}, {'}', RBRACE}, {',', COMMA}, {'=', EQUAL}, {'(', LBRACKET}, {')', RBRACKET}};
          w.token = m.find(t.text[0])->second;
          break;
        }
        case K_TYPE: w.token = t.text[0] == 'i' ? INT_DECL : t.text == "string" ? STRING_DECL : FLOAT_DECL; break;
        case K_INT: w.token = INTEGER; break;
        case K_FLT: w.token = FLOAT; break;
        case K_STR: w.token = STRING; break;
        default: w.token = IDENTIFIER;
      }
      now.push_back(w);
    }
    // tokens of an included text go in front of what was there
    want.splice(want.begin(), now);
    auto g = sc.getTokens().begin();
    size_t i = 0;
    for (auto &w : want) {
      CHECK(g != sc.getTokens().end(), "only " << i << " tokens of " << want.size());
      CHECK(g->getToken() == w.token && g->getString() == w.str, "token " << i << " is " << g->getToken() << " \"" << g->getString() << "\", expected " << w.token << " \"" << w.str << "\"");
      CHECK(g->getLine() >= w.from && g->getLine() <= w.to, "token " << i << " is in line " << g->getLine() << ", expected " << w.from << " to " << w.to);
      if (w.own) CHECK(g->getFilename() == file, "file name of token " << i);
      schnek::Token copy(*g), assigned;
      assigned = *g;
      CHECK(copy.getLine() == g->getLine() && copy.getToken() == g->getToken() && copy.getString() == g->getString() && copy.getFilename() == g->getFilename(), "copy of a token");
      CHECK(assigned.getLine() == g->getLine() && assigned.getToken() == g->getToken() && assigned.getString() == g->getString() && assigned.getFilename() == g->getFilename(), "assigned token");
      ++g, ++i;
    }
    CHECK(g == sc.getTokens().end(), "more than " << want.size() << " tokens");
    CHECK(sc.getTokens().getFilename() == file, "file name of the list");
  }
  // tokens that need no blank between them: a number ends where what follows can not continue it
  {
    std::string text((size_t)s.range(0, 140), ' ');
    std::vector<std::pair<int, std::string>> exp;
    int n = (int)s.range(1, 12);
    for (int i = 0; i < n; ++i) {
      bool flt = s.chance(1, 2);
      std::string num = flt ? s.pick(std::vector<std::string>{"1.5", "7.", ".25", "2e5", "1.e-3"}) : std::to_string(s.range(0, 99999));
      exp.push_back({flt ? FLOAT : INTEGER, num});
      text += num;
      switch (s.range(0, 4)) {
        case 0: text += "e+", exp.push_back({IDENTIFIER, "e"}), exp.push_back({PLUS, ""}); break;
        case 1: text += "E-", exp.push_back({IDENTIFIER, "E"}), exp.push_back({MINUS, ""}); break;
        case 2: text += "/", exp.push_back({DIVIDE, ""}); break;
        default: {
          std::string id = s.pick(std::vector<std::string>{"e", "ex", "E_", "x", "e:b"});
          text += id, exp.push_back({IDENTIFIER, id});
        }
      }
      if (s.chance(1, 2) || text.back() != '/') text += s.chance(1, 3) ? "\n" : " ";
    }
    NOTE(s) << "glued: " << shorten(text) << "\n";
    schnek::DeckScanner gs("glued");
    std::istringstream in(text);
    gs.scan(&in);
    auto g = gs.getTokens().begin();
    for (size_t i = 0; i < exp.size(); ++i, ++g) {
      CHECK(g != gs.getTokens().end(), "only " << i << " glued tokens of " << exp.size());
      CHECK(g->getToken() == exp[i].first && g->getString() == exp[i].second, "glued token " << i << " is " << g->getToken() << " \"" << g->getString() << "\", expected " << exp[i].first << " \"" << exp[i].second << "\"");
    }
    CHECK(g == gs.getTokens().end(), "more than " << exp.size() << " glued tokens");
  }
  if (want.size() > 2) s.nontrivial();
  s.label("scans of one scanner: " + std::to_string(rounds));
}

/// the special functions, against the C++ library's
PROPERTY(parser_special) {
  int n = (int)s.range(0, 6);
  double x = s.real(1, 160, 16) / 16 + s.real(0, 1, 1024) / 8, a = s.real(-4, 4, 64), sg = s.real(1, 64, 64) / 8;
  int kind = (int)s.range(0, 6);
  char buf[200];
  double want = 0, scale = 0;
  switch (kind) {
    case 0: snprintf(buf, sizeof buf, "gamma(%.17g)", x), want = std::tgamma(x); break;
    case 1: snprintf(buf, sizeof buf, "lgamma(%.17g)", x), want = std::lgamma(x), scale = 1; break;
    case 2: {
      // digamma: recurrence to a large argument, then the asymptotic series
      double y = x;
      while (y < 30) want -= 1 / y, y += 1;
      double q = 1 / (y * y);
      want += std::log(y) - 0.5 / y - q * (1. / 12 - q * (1. / 120 - q * (1. / 252 - q / 240)));
      scale = 1;
      snprintf(buf, sizeof buf, "digamma(%.17g)", x);
      break;
    }
    case 3: snprintf(buf, sizeof buf, "besselj(%d, %.17g)", n, x), want = std::cyl_bessel_j(n, x), scale = 1; break;
    case 4: snprintf(buf, sizeof buf, "bessely(%d, %.17g)", n, x), want = std::cyl_neumann(n, x), scale = 1; break;
    case 5: snprintf(buf, sizeof buf, "normal(%.17g, %.17g, %.17g)", x, sg, a), want = std::exp(-((x - a) / sg) * ((x - a) / sg) / 2); break;
    default: snprintf(buf, sizeof buf, "besselj(%d, %.17g - sx)", n, 2 * x), want = std::cyl_bessel_j(n, x), scale = 1; break;
  }
  NOTE(s) << buf << "\n";
  schnek::VariableStorage vars("top", "main");
  schnek::FunctionRegistry reg;
  if (s.chance(1, 2)) schnek::registerSpecialFunctions(reg);
  else schnek::registerAllFunctions(reg);
  double sx = x;
  vars.addVariable("sx", schnek::pVariable(new schnek::Variable(schnek::pFloatExpression(new schnek::ExternalValue<double>(&sx)), true, true)));
  schnek::Parser P(vars, reg);
  std::istringstream in(std::string("float y = ") + buf + ";");
  P.parse(in, "deck.in");
  schnek::pVariable v = vars.getRootBlock()->getVariable("y");
  if (!v->isConstant()) v->evaluateExpression();
  double got = boost::get<double>(v->getValue());
  CHECK(std::fabs(got - want) <= 1e-8 * (std::fabs(want) + scale), buf << " is " << got << ", expected " << want);
  s.nontrivial();
  s.label(std::string(buf, strcspn(buf, "(")));
}

/// the tree of blocks and variables, built through the programming interface
PROPERTY(variable_storage) {
  schnek::VariableStorage vs("top", "main");
  struct N {
    std::string name, cls;
    N *up = nullptr;
    std::vector<std::unique_ptr<N>> kids;
    std::map<std::string, schnek::pVariable> vars;
    N *kid(const std::string &n) {
      for (auto &k : kids)
        if (k->name == n) return k.get();
      return nullptr;
    }
    schnek::pVariable find(std::vector<std::string> p, bool upward) {
      N *b = this;
      if (p.size() > 1 && b->kid(p[0])) return b->kid(p[0])->find(std::vector<std::string>(p.begin() + 1, p.end()), false);
      if (p.size() == 1 && b->vars.count(p[0])) return b->vars[p[0]];
      return upward && up ? up->find(p, true) : schnek::pVariable();
    }
  };
  N root;
  root.name = "top", root.cls = "main";
  N *cur = &root;
  static const std::vector<std::string> names = {"a", "b", "c"};
  int steps = (int)s.range(3, 40);
  for (int i = 0; i < steps; ++i) {
    int op = (int)s.range(0, 9);
    if (op < 3) {
      std::string n = s.pick(names), cl = s.pick(std::vector<std::string>{"A", "B"});
      NOTE(s) << "block " << cl << " " << n << "; ";
      bool dup = cur->kid(n), thrown = false;
      schnek::pBlockVariables bv;
      try {
        bv = vs.createBlock(n, cl);
      } catch (schnek::DuplicateBlockException &e) {
        thrown = true;
      }
      CHECK(thrown == dup, "block " << n << (dup ? " created twice" : " refused"));
      if (!dup) {
        CHECK(bv && bv->getBlockName() == n && bv->getClassName() == cl, "the new block");
        std::unique_ptr<N> k(new N);
        k->name = n, k->cls = cl, k->up = cur;
        cur->kids.push_back(std::move(k));
        cur = cur->kids.back().get();
        CHECK(vs.getCurrentBlock() == bv, "the new block is not the current one");
      }
    } else if (op < 6) {
      std::string n = s.pick(names);
      NOTE(s) << "variable " << n << "; ";
      bool dup = cur->vars.count(n) > 0, thrown = false;
      schnek::pVariable v(s.chance(1, 2) ? new schnek::Variable(i) : new schnek::Variable(double(i)));
      try {
        vs.addVariable(n, v);
      } catch (schnek::DuplicateVariableException &e) {
        thrown = true;
      }
      CHECK(thrown == dup, "variable " << n << (dup ? " added twice" : " refused"));
      if (!dup) cur->vars[n] = v;
    } else if (op < 8) {
      NOTE(s) << "up; ";
      vs.cursorUp();
      if (cur->up) cur = cur->up;
    } else if (op < 9) {
      NOTE(s) << "root; ";
      vs.resetCursor();
      cur = &root;
    } else {
      // lookups
      std::string p;
      std::vector<std::string> parts;
      int n = (int)s.range(1, 3);
      for (int k = 0; k < n; ++k) parts.push_back(s.pick(names)), p += (k ? ":" : "") + parts.back();
      schnek::pVariable w = cur->find(parts, true), g;
      bool found = true;
      try {
        g = vs.getCurrentBlock()->getVariable(p);
      } catch (schnek::VariableNotFoundException &e) {
        found = false;
      }
      CHECK(found == (bool)w && (!w || g == w) && vs.getCurrentBlock()->exists(p) == (bool)w, "lookup of " << p << (w ? " fails" : " finds something"));
      if (w) s.label("found");
    }
    CHECK(vs.getCurrentBlock()->getBlockName() == cur->name && vs.getCurrentBlock()->getClassName() == cur->cls && (vs.getCurrentBlock()->getParent() != nullptr) == (cur->up != nullptr), "current block is " << vs.getCurrentBlock()->getBlockName() << ", expected " << cur->name);
  }
  struct Cmp {
    static void run(N &n, schnek::pBlockVariables b, schnek::pBlockVariables up) {
      CHECK(b->getBlockName() == n.name && b->getClassName() == n.cls && b->getParent() == up, "block " << n.name);
      std::map<std::string, schnek::pVariable> vm(b->getVariables().begin(), b->getVariables().end());
      CHECK(vm == n.vars, "variables of block " << n.name);
      CHECK(b->getChildren().size() == n.kids.size(), "children of block " << n.name);
      auto it = b->getChildren().begin();
      for (auto &k : n.kids) run(*k, *it++, b);
    }
  };
  Cmp::run(root, vs.getRootBlock(), nullptr);
  if (root.kids.size() && steps > 5) s.nontrivial();
}

/// variables as values: copies, assignments, evaluation
PROPERTY(variable_values) {
  using schnek::Variable;
  struct M {
    schnek::pVariable v;
    int type;           // 0 int, 1 float, 2 string
    bool fixed, init, ro;
    int ext;            // the external value it shows, if not fixed
    int id;             // identity: shared by copies
    std::string val;    // the value last seen, as text
  };
  static int xi[3];
  static double xd[3];
  static std::string xs[3];
  for (int k = 0; k < 3; ++k) xi[k] = k, xd[k] = k + 0.5, xs[k] = std::string(k, 'x');
  auto text = [](const schnek::ValueVariant &v) {
    std::ostringstream o;
    if (const int *i = boost::get<int>(&v)) o << "int " << *i;
    else if (const double *d = boost::get<double>(&v)) o << "float " << *d;
    else o << "string " << boost::get<std::string>(v);
    return o.str();
  };
  auto extText = [&](int type, int k) {
    std::ostringstream o;
    if (type == 0) o << "int " << xi[k];
    else if (type == 1) o << "float " << xd[k];
    else o << "string " << xs[k];
    return o.str();
  };
  std::vector<M> ms;
  int ids = 0, steps = (int)s.range(3, 30), refused = 0, taken = 0;
  auto check = [&](const M &m, size_t n) {
    static const Variable::VariableTypeInfo ti[3] = {Variable::int_type, Variable::float_type, Variable::string_type};
    CHECK(m.v->getType() == ti[m.type], "type of #" << n);
    CHECK(m.v->isConstant() == m.fixed, "#" << n << (m.fixed ? " is not constant" : " is constant"));
    CHECK(m.v->isInitialised() == m.init, "initialised state of #" << n);
    CHECK(m.v->isReadOnly() == m.ro, "read only state of #" << n);
    if (m.fixed || !m.val.empty()) CHECK(text(m.v->getValue()) == m.val, "value of #" << n << " is " << text(m.v->getValue()) << ", expected " << m.val);
  };
  for (int k = 0; k < steps; ++k) {
    int op = ms.size() < 2 ? 0 : (int)s.range(0, 7);
    if (op <= 1) {
      M m;
      m.type = (int)s.range(0, 2);
      m.fixed = s.chance(1, 2);
      m.init = !s.chance(1, 4);
      m.ro = s.chance(1, 4);
      m.ext = (int)s.range(0, 2);
      m.id = ids++;
      int arg = (int)s.range(0, 2);  // how many of the optional arguments are given
      if (arg < 2) m.ro = false;
      if (arg < 1) m.init = true;
      auto make = [&](auto val) {
        return schnek::pVariable(arg == 0 ? new Variable(val) : arg == 1 ? new Variable(val, m.init) : new Variable(val, m.init, m.ro));
      };
      if (m.fixed) {
        int c = (int)s.range(-5, 5);
        if (m.type == 0) m.v = make(c);
        else if (m.type == 1) m.v = make(c / 2.0);
        else m.v = make(std::string("s") + std::to_string(c));
        std::ostringstream o;
        if (m.type == 0) o << "int " << c;
        else if (m.type == 1) o << "float " << c / 2.0;
        else o << "string s" << c;
        m.val = o.str();
      } else if (m.type == 0) m.v = make(schnek::pIntExpression(new schnek::ExternalValue<int>(&xi[m.ext])));
      else if (m.type == 1) m.v = make(schnek::pFloatExpression(new schnek::ExternalValue<double>(&xd[m.ext])));
      else m.v = make(schnek::pStringExpression(new schnek::ExternalValue<std::string>(&xs[m.ext])));
      ms.push_back(m);
      NOTE(s) << "#" << ms.size() - 1 << " = " << (m.fixed ? m.val : "external " + extText(m.type, m.ext)) << (m.init ? "" : " uninitialised") << (m.ro ? " read only" : "") << "; ";
    } else if (op == 2) {
      size_t i = s.draw(ms.size());
      M m = ms[i];
      m.v.reset(new Variable(*ms[i].v));
      ms.push_back(m);
      NOTE(s) << "#" << ms.size() - 1 << " = copy of #" << i << "; ";
    } else if (op <= 4) {
      size_t a = s.draw(ms.size()), b = s.draw(ms.size());
      M &l = ms[a], &r = ms[b];
      NOTE(s) << "#" << a << " := #" << b << "; ";
      int want = l.type != r.type ? 1 : l.ro ? 2 : 0, got = 0;
      try {
        Variable &ref = (*l.v = *r.v);
        CHECK(&ref == l.v.get(), "assignment does not return its target");
      } catch (schnek::TypeMismatchException &) {
        got = 1;
      } catch (schnek::ReadOnlyAssignmentException &) {
        got = 2;
      }
      bool both = l.type != r.type && l.ro;  // which of the two reasons is given is open
      CHECK((got != 0) == (want != 0) && (both || got == want), "assignment " << (got ? "refused" : "accepted") << (want == 1 ? ", the types differ" : want == 2 ? ", it is read only" : ""));
      if (!want) {
        l.fixed = r.fixed, l.init = r.init, l.ext = r.ext, l.id = r.id, l.val = r.val;
        ++taken;
      } else ++refused;
    } else if (op == 5) {
      int e = (int)s.range(0, 2), c = (int)s.range(-9, 9);
      xi[e] = c, xd[e] = c / 4.0, xs[e] = std::to_string(c) + "y";
      NOTE(s) << "external " << e << " changes to " << c << "; ";
    } else {
      size_t i = s.draw(ms.size());
      M &m = ms[i];
      NOTE(s) << "evaluate #" << i << "; ";
      if (!m.fixed) m.val = extText(m.type, m.ext);
      bool direct = !m.fixed && s.chance(1, 2);
      schnek::ValueVariant v = direct ? m.v->evaluateExpression() : m.v->evaluate();
      CHECK(text(v) == m.val, "#" << i << " evaluates to " << text(v) << ", expected " << m.val);
    }
    for (size_t i = 0; i < ms.size(); ++i) {
      check(ms[i], i);
      for (size_t j = 0; j < i; ++j)
        CHECK((ms[i].v->getId() == ms[j].v->getId()) == (ms[i].id == ms[j].id), "identities of #" << i << " and #" << j
              << (ms[i].id == ms[j].id ? " differ although one was copied from the other" : " are equal"));
    }
  }
  if (refused && taken) s.nontrivial();
}

/// any bytes at all: accepted, or rejected with an exception of the library
PROPERTY(parser_bytes) {
  std::string text;
  int kind = (int)s.range(0, 3);
  if (kind == 0) {
    int n = (int)s.small(300);
    for (int i = 0; i < n; ++i) text += (char)s.draw(256);
  } else if (kind == 1) {
    static const std::vector<std::string> words = {
        "int", "float", "string", "real", "a", "b", "A", "B", "a:b", ":", "e", "e5", "1", "2", "0", "1.5", ".5", "1e", "1e5", ".",
        "'", "\"", "'s'", "\"t\"", "\\", "=", ";", "{", "}", "(", ")", ",", "+", "-", "*", "/", "^", "//", "/*", "*/", "\n", " ",
        "\t", "sin", "min", "cat", "ticki", "ei", "ed", "es", "2147483647", "99999999999", "1e999", "N", "C1", "seven", "len", "%", "&"};
    int n = (int)s.small(120);
    for (int i = 0; i < n; ++i) {
      text += s.pick(words);
      if (s.chance(1, 2)) text += " ";
    }
  } else {
    GenOptions o;
    o.sloppy = 30;
    o.depth = 3;
    Gen g(s, o);
    g.large();
    predefine(g, true);
    g.program();
    Layout lay;
    lay.longest = 150;
    text = render(s, g.toks, lay, s.chance(1, 2));
    int n = (int)s.range(1, 6);
    for (int i = 0; i < n && !text.empty(); ++i) {
      size_t at = s.draw(text.size());
      switch (s.range(0, 5)) {
        case 0: text.erase(at, 1); break;
        case 1: text.insert(at, 1, (char)s.draw(256)); break;
        case 2: text[at] = (char)s.draw(256); break;
        case 3: text[at] = "=;{}()+-*/^'\",.:e0"[s.draw(18)]; break;
        case 4: text.resize(at); break;
        default: text.insert(at, text.substr(s.draw(text.size()), (size_t)s.range(1, 300))); break;
      }
    }
    if (kind == 3) {
      // deep nesting and long chains
      std::string open, close;
      int d = (int)s.small(300);
      std::string piece = s.pick(std::vector<std::string>{"(", "-(", "sin(", "2*(", "min(1,", "2^("});
      for (int i = 0; i < d; ++i) open += piece, close += ")";
      std::string chain;
      int cl = (int)s.small(400);
      for (int i = 0; i < cl; ++i) chain += s.pick(std::vector<std::string>{"+1", "-2", "*1", "/3", "+1.5", "+ei"});
      text = "float deep = " + open + "1" + close + chain + ";" + text;
      std::string bo;
      int bd = (int)s.small(200);
      for (int i = 0; i < bd; ++i) bo += "C1 B { ";
      text = bo + text;
    }
  }
  NOTE(s) << shorten(text) << "\n";
  Classes c;
  Run got(text, c);
  s.label(got.out.ok ? "accepted" : got.out.parserError ? "ParserError" : got.out.message.substr(0, 30));
  if (!got.out.ok && got.out.parserError) {
    CHECK(got.out.file == "deck.in", "file name " << got.out.file);
    CHECK(got.out.line >= 0 && got.out.line <= 2 + (int)std::count(text.begin(), text.end(), '\n'), "line " << got.out.line << " does not exist");
  }
  if (text.size() > 10) s.nontrivial();
}
