// A reference implementation of the setup-file language: recursive descent over tokens, direct evaluation.
// Written from the language's rules, not from the library's code: types int/float/string, left-associative
// operators, constants evaluated where they are assigned, everything else kept as an expression.
#ifndef REFDECK_HPP
#define REFDECK_HPP

#include "pbt.hpp"

#include <cmath>
#include <functional>
#include <memory>

namespace ref {

enum Type { INT, FLT, STR };
inline const char *typeName(Type t) { return t == INT ? "int" : t == FLT ? "float" : "string"; }

struct Val {
  Type t;
  int i;
  double d;
  std::string s;
  Val() : t(INT), i(0), d(0) {}
  Val(int v) : t(INT), i(v), d(0) {}
  Val(double v) : t(FLT), i(0), d(v) {}
  Val(const std::string &v) : t(STR), i(0), d(0), s(v) {}
  std::string show() const {
    std::ostringstream o;
    o.precision(17);
    if (t == INT) o << i;
    else if (t == FLT) o << d << "f";
    else o << '"' << s << '"';
    return o.str();
  }
};

inline bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  if (a.t == INT) return a.i == b.i;
  if (a.t == STR) return a.s == b.s;
  if (std::isnan(a.d) || std::isnan(b.d)) return std::isnan(a.d) && std::isnan(b.d);
  return a.d == b.d;
}

/// an evaluation that the library has to refuse (division by zero, text that is not a number)
struct EvalError {};
/// a variable whose own evaluation failed
struct Undefined {};

inline int toInt(double d) {
  if (!(d > -2147483000.0 && d < 2147483000.0)) throw pbt::Discard();
  return (int)d;
}
inline int fit(long v) {
  if (v > 2147483647l || v < -2147483647l) throw pbt::Discard();
  return (int)v;
}

inline bool isIntText(const std::string &s) {
  size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
  size_t n = s.size() - i;
  if (n == 0) return false;
  for (; i < s.size(); ++i)
    if (!isdigit((unsigned char)s[i])) return false;
  if (n > 9) throw pbt::Discard();
  return true;
}
inline bool isFltText(const std::string &s) {
  size_t i = !s.empty() && (s[0] == '+' || s[0] == '-'), dig = 0;
  while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++dig;
  if (i < s.size() && s[i] == '.') {
    ++i;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++dig;
  }
  if (!dig) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t e = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++e;
    if (!e) return false;
  }
  return i == s.size();
}

inline std::string fltText(double d) {
  if (!std::isfinite(d)) throw pbt::Discard();
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

inline Val cast(const Val &v, Type t) {
  if (v.t == t) return v;
  switch (t) {
    case INT:
      if (v.t == FLT) return Val(toInt(v.d));
      if (!isIntText(v.s)) {
        // how words like inf, nan or a padded number convert is not part of the language
        if (v.s.find_first_of(" \t\n\v\f\r") != std::string::npos) throw pbt::Discard();
        throw EvalError();
      }
      return Val((int)strtol(v.s.c_str(), 0, 10));
    case FLT:
      if (v.t == INT) return Val((double)v.i);
      if (!isFltText(v.s)) {
        if (v.s.find_first_of("nNiIxX") != std::string::npos) throw pbt::Discard();
        throw EvalError();
      }
      if (std::isinf(strtod(v.s.c_str(), 0))) throw pbt::Discard();
      return Val(strtod(v.s.c_str(), 0));
    default:
      if (v.t == INT) return Val(std::to_string(v.i));
      return Val(fltText(v.d));
  }
}

struct Var;
struct Node;
typedef std::shared_ptr<Node> PNode;
typedef std::shared_ptr<Var> PVar;

struct Func {
  std::vector<Type> args;
  Type ret;
  bool always;  // has to be evaluated again at every update
  std::function<Val(const std::vector<Val> &)> f;
};

struct Node {
  char op;  // 'l' literal, 'r' reference, 'n' negation, 'i' identity, + - * / ^, 'f' function, 'c' conversion
  Type t;
  Val lit;
  PVar var;
  Func fn;
  std::vector<PNode> kids;
};

struct Var {
  std::string name;
  Type t;
  bool constant, readonly, init, defined;
  Val val;
  PNode expr;
  // read-only variables bound to a program variable
  int *pi = nullptr;
  double *pd = nullptr;
  std::string *ps = nullptr;
  bool external() const { return pi || pd || ps; }
  Val ext() const { return pi ? Val(*pi) : pd ? Val(*pd) : Val(*ps); }
  Var() : t(INT), constant(true), readonly(false), init(true), defined(true) {}
};

inline bool isConst(const PNode &n) {
  if (n->op == 'l') return true;
  if (n->op == 'r') return n->var->constant;
  if (n->op == 'f' && n->fn.always) return false;
  for (auto &k : n->kids)
    if (!isConst(k)) return false;
  return true;
}

inline void refs(const PNode &n, std::vector<PVar> &out) {
  if (n->op == 'r') out.push_back(n->var);
  for (auto &k : n->kids) refs(k, out);
}

inline bool hasAlways(const PNode &n) {
  if (n->op == 'f' && n->fn.always) return true;
  for (auto &k : n->kids)
    if (hasAlways(k)) return true;
  return false;
}

inline Val arith(char op, const Val &a, const Val &b) {
  if (a.t == STR) {
    if (op == '+') {
      if (a.s.size() + b.s.size() > 100000) throw pbt::Discard();
      return Val(a.s + b.s);
    }
    return Val(std::string());
  }
  if (a.t == INT) {
    long x = a.i, y = b.i;
    switch (op) {
      case '+': return Val(fit(x + y));
      case '-': return Val(fit(x - y));
      case '*': return Val(fit(x * y));
      case '/':
        if (y == 0) throw EvalError();
        return Val(fit(x / y));
      default: return Val(toInt(std::pow((double)x, (double)y)));
    }
  }
  switch (op) {
    case '+': return Val(a.d + b.d);
    case '-': return Val(a.d - b.d);
    case '*': return Val(a.d * b.d);
    case '/': return Val(a.d / b.d);
    default: return Val(std::pow(a.d, b.d));
  }
}

/// value of an expression; deep: referenced non-constant variables are computed too (a full re-evaluation)
inline Val eval(const PNode &n, bool deep) {
  switch (n->op) {
    case 'l': return n->lit;
    case 'r':
      if (n->var->external()) return n->var->ext();
      if (!n->var->constant && deep) return eval(n->var->expr, deep);
      if (!n->var->defined) throw Undefined();
      return n->var->val;
    case 'i': return eval(n->kids[0], deep);
    case 'n': {
      Val v = eval(n->kids[0], deep);
      if (v.t == INT) return Val(fit(-(long)v.i));
      if (v.t == FLT) return Val(-v.d);
      return Val(std::string());
    }
    case 'c': return cast(eval(n->kids[0], deep), n->t);
    case 'f': {
      std::vector<Val> a;
      for (size_t i = 0; i < n->kids.size(); ++i) a.push_back(cast(eval(n->kids[i], deep), n->fn.args[i]));
      return n->fn.f(a);
    }
    default: {
      Val a = cast(eval(n->kids[0], deep), n->t), b = cast(eval(n->kids[1], deep), n->t);
      return arith(n->op, a, b);
    }
  }
}

struct Blk {
  std::string name, cls;
  Blk *parent = nullptr;
  std::map<std::string, PVar> vars;
  std::vector<std::shared_ptr<Blk>> kids;
  std::map<std::string, Blk *> byName;

  PVar find(const std::string &path, bool up = true) {
    size_t c = path.find(':');
    if (c != std::string::npos) {
      auto k = byName.find(path.substr(0, c));
      if (k != byName.end()) return k->second->find(path.substr(c + 1), false);
    } else {
      auto v = vars.find(path);
      if (v != vars.end()) return v->second;
    }
    return up && parent ? parent->find(path, true) : PVar();
  }
};

// ---- tokens

enum Kind { K_SYM, K_ID, K_INT, K_FLT, K_STR, K_TYPE };
struct Tok {
  Kind k;
  std::string text;  // as written (strings with their quotes)
  int line = 0;      // line on which the token ends
  int first = 0;     // line on which it starts
  bool is(char c) const { return k == K_SYM && text[0] == c; }
};

/// an error the library has to report, with the lines it may name
struct Problem {
  std::string what;
  bool parser;    // reported with file and line
  int from, to;   // acceptable lines
};
typedef std::vector<Problem> Problems;

class Deck {
 public:
  Blk root;
  Blk *cur;
  std::map<std::string, Func> funcs;
  /// class -> allowed children; only used when restrict
  bool restricted = false;
  std::map<std::string, std::set<std::string>> allowed;
  std::function<void(Blk &)> onBlock;  // declares the parameters of a block of the given class
  size_t statements = 0, stmtWithRef = 0;

  Deck() : cur(&root) {}

 private:
  const std::vector<Tok> *t;
  size_t p;
  int depthUsed;

  [[noreturn]] void fail(const std::string &what, const Tok &tok) { throw Problems{{what, true, tok.first, tok.line}}; }
  [[noreturn]] void syntax() {
    if (p < t->size()) fail("syntax error at '" + (*t)[p].text + "'", (*t)[p]);
    int l = t->empty() ? 1 : t->back().line;
    throw Problems{{"syntax error at the end", true, t->empty() ? 0 : t->back().first, l + 1000000}};
  }
  const Tok &peek() {
    static Tok end{K_SYM, "$"};
    return p < t->size() ? (*t)[p] : end;
  }
  bool at(char c) { return p < t->size() && (*t)[p].is(c); }
  void expect(char c) {
    if (!at(c)) syntax();
    ++p;
  }
  static PNode mk(char op, Type ty, std::vector<PNode> kids = {}) {
    PNode n(new Node);
    n->op = op;
    n->t = ty;
    n->kids = std::move(kids);
    return n;
  }
  static PNode bin(char op, PNode a, PNode b) { return mk(op, std::max(a->t, b->t), {a, b}); }

  PNode atomic() {
    if (p >= t->size()) syntax();
    const Tok &k = (*t)[p];
    if (k.is('(')) {
      ++p;
      PNode e = expression();
      expect(')');
      return mk('i', e->t, {e});
    }
    if (k.k == K_INT) {
      ++p;
      size_t nz = std::min(k.text.find_first_not_of('0'), k.text.size());
      std::string digits = k.text.substr(nz);
      if (digits.size() > 9 && !(digits.size() == 10 && digits <= "2147483647")) fail("integer too large", k);
      PNode n = mk('l', INT);
      n->lit = Val((int)strtol(digits.c_str(), 0, 10));
      return n;
    }
    if (k.k == K_FLT) {
      ++p;
      if (!isFltText(k.text)) fail("not a number", k);
      if (std::isinf(strtod(k.text.c_str(), 0))) fail("number too large", k);
      PNode n = mk('l', FLT);
      n->lit = Val(strtod(k.text.c_str(), 0));
      return n;
    }
    if (k.k == K_STR) {
      ++p;
      PNode n = mk('l', STR);
      n->lit = Val(k.text.substr(1, k.text.size() - 2));
      return n;
    }
    if (k.k != K_ID) syntax();
    ++p;
    if (at('(')) {
      size_t open = p++;
      std::vector<PNode> args;
      if (!at(')')) {
        args.push_back(expression());
        while (at(',')) {
          ++p;
          args.push_back(expression());
        }
      }
      expect(')');
      (void)open;
      auto f = funcs.find(k.text);
      // reported as soon as the closing bracket is read, which may be before a later syntax error is seen
      if (f == funcs.end()) throw Problems{{"unknown function " + k.text, false, k.first, (*t)[p - 1].line}};
      if (f->second.args.size() != args.size())
        throw Problems{{"wrong number of arguments of " + k.text, false, k.first, (*t)[p - 1].line}};
      PNode n = mk('f', f->second.ret, args);
      n->fn = f->second;
      return n;
    }
    PVar v = cur->find(k.text);
    if (!v) fail("undefined variable " + k.text, k);
    if (!v->init) throw pbt::Discard();  // the value of a parameter that was never set is not specified
    PNode n = mk('r', v->t);
    n->var = v;
    return n;
  }
  PNode power() {
    PNode a = atomic();
    if (!at('^')) return a;
    ++p;
    bool neg = at('-');
    if (neg || at('+')) ++p;
    PNode b = atomic();
    if (neg) b = mk('n', b->t, {b});
    return bin('^', a, b);
  }
  PNode term() {
    PNode a = power();
    while (at('*') || at('/')) {
      char op = (*t)[p++].text[0];
      a = bin(op, a, power());
    }
    return a;
  }
  PNode expression() {
    if (++depthUsed > 400) throw pbt::Discard();
    PNode a;
    if (at('-')) {
      ++p;
      PNode k = term();
      a = mk('n', k->t, {k});
    } else {
      if (at('+')) ++p;
      a = term();
    }
    while (at('+') || at('-')) {
      char op = (*t)[p++].text[0];
      a = bin(op, a, term());
    }
    return a;
  }

  /// an expression as the value of a variable: constants now, everything else later
  void settle(Var &v, PNode e) {
    if (isConst(e)) {
      v.val = eval(e, false);
      v.constant = true;
      v.expr.reset();
      v.defined = true;
    } else {
      v.constant = false;
      v.expr = e;
      v.defined = false;
    }
  }

  void store(Type ty, const Tok &, const std::vector<std::pair<Tok, PNode>> &decls, int from, int to) {
    // which of several mistakes in one declaration is reported is not specified
    Problems pr;
    std::set<std::string> names;
    std::vector<PVar> made;
    for (auto &d : decls) {
      PVar v(new Var);
      v->t = ty;
      v->name = d.first.text;
      if (!d.second) {
        pr.push_back({"variable without a value", true, from, to});
        continue;
      }
      try {
        settle(*v, d.second);
      } catch (EvalError &) {
        pr.push_back({"evaluation", false, from, to});
      }
      if (d.second->t != ty) pr.push_back({"type mismatch", true, from, to});
      if (cur->vars.count(d.first.text) || names.count(d.first.text)) pr.push_back({"redeclaration of " + d.first.text, true, from, to});
      names.insert(d.first.text);
      made.push_back(v);
    }
    if (!pr.empty()) throw pr;
    for (auto &v : made) cur->vars[v->name] = v;
  }

  void assign(const Tok &id, PNode e) {
    Problems pr;
    PVar v = cur->find(id.text);
    if (!v) throw Problems{{"assignment to undeclared " + id.text, true, id.first, id.line}};
    if (v->readonly) pr.push_back({"assignment to read-only " + id.text, true, id.first, id.line});
    Var tmp;
    tmp.t = v->t;
    if (e->t != v->t) e = mk('c', v->t, {e});
    try {
      settle(tmp, e);
    } catch (EvalError &) {
      pr.push_back({"evaluation", false, id.first, id.line + 1000000});
    }
    if (!pr.empty()) throw pr;
    v->constant = tmp.constant;
    v->expr = tmp.expr;
    v->val = tmp.val;
    v->defined = tmp.defined;
    v->init = true;
  }

  void block(const Tok &cls, const Tok &name) {
    Problems pr;
    int from = cls.first, to = name.line;
    if (restricted && !allowed.count(cur->cls)) pr.push_back({"unknown class", true, from, to});
    else if (restricted && !allowed[cur->cls].count(cls.text)) pr.push_back({"block not allowed here", true, from, to});
    if (cur->byName.count(name.text)) pr.push_back({"duplicate block", true, from, to});
    if (!pr.empty()) throw pr;
    std::shared_ptr<Blk> b(new Blk);
    b->name = name.text;
    b->cls = cls.text;
    b->parent = cur;
    cur->kids.push_back(b);
    cur->byName[b->name] = b.get();
    if (restricted) allowed[b->cls];
    cur = b.get();
    if (onBlock) onBlock(*b);
  }

 public:
  void enterRoot() {
    if (onBlock) onBlock(root);
  }

  /// runs the whole file; throws Problems when it is not acceptable
  void run(const std::vector<Tok> &toks) {
    t = &toks;
    p = 0;
    if (toks.empty()) syntax();
    while (p < toks.size()) {
      ++statements;
      depthUsed = 0;
      const Tok &k = toks[p];
      if (k.is('}')) {
        ++p;
        if (!cur->parent) fail("extra }", k);
        cur = cur->parent;
        continue;
      }
      if (k.k == K_TYPE) {
        ++p;
        Type ty = k.text[0] == 'i' ? INT : k.text[0] == 's' ? STR : FLT;
        std::vector<std::pair<Tok, PNode>> decls;
        do {
          if (p >= toks.size() || toks[p].k != K_ID) syntax();
          Tok id = toks[p++];
          PNode e;
          if (at('=')) {
            ++p;
            e = expression();
          }
          decls.push_back({id, e});
        } while (at(',') && ++p);
        expect(';');
        store(ty, k, decls, k.first, toks[p - 1].line);
        continue;
      }
      if (k.k != K_ID) syntax();
      ++p;
      if (at('=')) {
        ++p;
        PNode e = expression();
        expect(';');
        std::vector<PVar> r;
        refs(e, r);
        if (!r.empty()) ++stmtWithRef;
        assign(k, e);
      } else if (at('{')) {
        ++p;
        block(k, k);
      } else if (p < toks.size() && toks[p].k == K_ID) {
        const Tok &name = toks[p++];
        expect('{');
        block(k, name);
      } else
        syntax();
    }
    finish();
  }

  void collect(Blk &b, std::vector<PVar> &out) {
    for (auto &v : b.vars)
      if (!v.second->constant) out.push_back(v.second);
    for (auto &k : b.kids) collect(*k, out);
  }

  /// evaluates every variable that is not constant
  void finish() {
    std::vector<PVar> vars;
    collect(root, vars);
    std::map<Var *, int> state;
    for (auto &v : vars) visit(v, state);
  }

 private:
  void visit(PVar v, std::map<Var *, int> &state) {
    if (v->constant || v->external()) return;
    int &st = state[v.get()];
    if (st == 2) return;
    if (st == 1) throw Problems{{"cyclic dependency", false, 0, 1 << 30}};
    st = 1;
    std::vector<PVar> r;
    refs(v->expr, r);
    for (auto &w : r) visit(w, state);
    st = 2;
    try {
      v->val = eval(v->expr, false);
      v->defined = true;
    } catch (EvalError &) {
      v->defined = false;
    } catch (Undefined &) {
      v->defined = false;
    }
  }
};

// ---- writing tokens down

struct Layout {
  bool wild = true;       // comments, control characters, newlines anywhere
  size_t longest = 0;     // length of the longest comment or blank run to insert
};

inline bool word(const Tok &t) { return t.k == K_ID || t.k == K_TYPE || t.k == K_INT || t.k == K_FLT; }

inline std::string filler(pbt::Src &s, size_t n, bool newline) {
  std::string r;
  static const std::string cs = "abc xyz 0123 +-*/=;{}()\"' \t\\!#$%&.,<>|~^:_";
  size_t k = s.range(0, 9);
  if (k > 6 && n) {
    // dense in the characters that begin or end something
    static const std::string dense = "**/*\"'/ *\\a\t";
    size_t m = std::min<size_t>(n, 12);
    for (size_t i = 0; i < n; ++i) r += i < m ? dense[s.draw(dense.size())] : k == 7 ? '*' : k == 8 ? '/' : r[i % m];
  } else
    for (size_t i = 0; i < n; ++i) r += cs[(i * 7 + k * 5 + i / 13) % cs.size()];
  if (newline && n) r[n / 2] = '\n';
  return r;
}

/// what goes between two tokens; mustn't be empty when need
inline std::string gap(pbt::Src &s, bool need, const Layout &lay) {
  std::string r;
  int how = (int)s.range(0, lay.wild ? 9 : 2);
  switch (how) {
    case 0: return need ? " " : "";
    case 1: return " ";
    case 2: return need ? " " : "";
    case 3: {
      if (!s.chance(1, 400)) return "\n";
      // a very long file
      size_t n = (size_t)s.range(1, 70000);
      std::string many(n, '\n');
      return s.chance(1, 2) ? many : "/*" + many + "*/\n";
    }
    case 4: return "\t";
    case 5: return "\r\n";
    case 6: return "//" + filler(s, (size_t)s.small(lay.longest), false) + "\n";
    case 7: {
      std::string f = filler(s, (size_t)s.small(lay.longest), s.chance(1, 2));
      // a comment must not contain its own end
      for (size_t i; (i = f.find("*/")) != std::string::npos;) f[i] = '+';
      return "/*" + f + (s.chance(1, 4) ? std::string((size_t)s.small(3), '*') : "") + "*/";
    }
    case 8: return std::string((size_t)s.small(lay.longest), ' ') + (s.chance(1, 2) ? "\n" : " ");
    default: return std::string(1, (char)s.pick(std::vector<int>{0x0b, 0x0c, 0x01, 0x7f, 0x80, 0xc3, 0xff, 0x1b})) + " \n\n";
  }
}

/// renders tokens, filling in the line numbers
inline std::string render(pbt::Src &s, std::vector<Tok> &toks, const Layout &lay, bool endNewline) {
  std::string out;
  int line = 1;
  auto put = [&](const std::string &x) {
    out += x;
    line += (int)std::count(x.begin(), x.end(), '\n');
  };
  for (size_t i = 0; i < toks.size(); ++i) {
    bool need = i && ((word(toks[i - 1]) && word(toks[i])) || (toks[i - 1].is('/') && (toks[i].is('/') || toks[i].is('*'))));
    std::string g = gap(s, need, lay);
    if (i && toks[i - 1].is('/') && !g.empty() && (g[0] == '/' || g[0] == '*')) g = " " + g;
    put(g);
    toks[i].first = line;
    put(toks[i].text);
    toks[i].line = line;
  }
  if (endNewline) put("\n");
  return out;
}

}  // namespace ref
#endif
