// Blocks: parameters, dependent variables, life cycle, containers, shared data.
#include "deckgen.hpp"

#include "tools/fieldtools.hpp"
#include "variables/blockcontainer.hpp"

using namespace deck;

namespace {

// ---- generated block classes

struct Spec {
  std::string name;
  Type t;
  enum Kind { RW, RO, CONST } kind;
  bool hasDefault;
  std::vector<Val> def;  // one, or one per component
  int rank;              // 0: not an array
  int form;              // which of the declaring functions
  std::string ext;
};
typedef std::vector<Spec> Schema;
std::map<std::string, Schema> *schemas;

Val sentinel(Type t) { return t == INT ? Val(-77) : t == FLT ? Val(-7.75) : Val(std::string("unset")); }

struct Holder {
  Type t = INT;
  Spec::Kind kind = Spec::RW;
  int *pi = nullptr;
  double *pd = nullptr;
  std::string *ps = nullptr;
  schnek::pParameter par;
  Val get() const { return pi ? Val(*pi) : pd ? Val(*pd) : Val(*ps); }
  void set(const Val &v) {
    if (pi) *pi = v.i;
    else if (pd) *pd = v.d;
    else *ps = v.s;
  }
};

struct Event {
  int phase;
  schnek::Block *b;
  bool paramsSet;
};
std::vector<Event> *events;

class TestBlock;
std::vector<TestBlock *> *instances;

class TestBlock : public schnek::Block {
 public:
  std::deque<int> ints;
  std::deque<double> dbls;
  std::deque<std::string> strs;
  std::vector<std::shared_ptr<void>> arrays;
  std::map<std::string, Holder> holders;

  TestBlock() {
    if (instances) instances->push_back(this);
  }
  ~TestBlock() override {
    if (instances) instances->erase(std::remove(instances->begin(), instances->end(), this), instances->end());
  }
  std::vector<TestBlock *> kids() {
    std::vector<TestBlock *> r;
    for (schnek::pBlock b : getChildren()) r.push_back(dynamic_cast<TestBlock *>(b.get()));
    return r;
  }
  static int *slot(Holder &h, std::deque<int> &i, std::deque<double> &, std::deque<std::string> &, int *) {
    i.push_back(-77);
    return h.pi = &i.back();
  }
  static double *slot(Holder &h, std::deque<int> &, std::deque<double> &d, std::deque<std::string> &, double *) {
    d.push_back(-7.75);
    return h.pd = &d.back();
  }
  static std::string *slot(Holder &h, std::deque<int> &, std::deque<double> &, std::deque<std::string> &s, std::string *) {
    s.push_back("unset");
    return h.ps = &s.back();
  }
  static int as(const Val &v, int *) { return v.i; }
  static double as(const Val &v, double *) { return v.d; }
  static std::string as(const Val &v, std::string *) { return v.s; }

  template <class T>
  void scalar(schnek::BlockParameters &bp, const Spec &sp) {
    typedef schnek::BlockParameters BP;
    T *tag = nullptr;
    Holder h;
    h.t = sp.t;
    h.kind = sp.kind;
    if (sp.kind == Spec::CONST) {
      h.par = bp.addConstant(sp.name, as(sp.def[0], tag));
      holders[sp.name] = h;
      return;
    }
    T *p = slot(h, ints, dbls, strs, tag);
    BP::Permissions perm = sp.kind == Spec::RO ? BP::readonly : BP::readwrite;
    if (sp.form == 0) {
      if (!sp.hasDefault) h.par = sp.kind == Spec::RO ? bp.addParameter(sp.name, p, perm) : bp.addParameter(sp.name, p);
      else if (sp.kind == Spec::RO) h.par = bp.addParameter(sp.name, p, as(sp.def[0], tag), perm);
      else h.par = bp.addParameter(sp.name, p, as(sp.def[0], tag));
    } else {
      schnek::pParametersGroup g(new schnek::ParametersGroup());
      h.par = bp.addParameter(sp.name, p, g, sp.hasDefault, as(sp.def[0], tag), perm);
    }
    holders[sp.name] = h;
  }
  template <class T, size_t R>
  void array(schnek::BlockParameters &bp, const Spec &sp) {
    typedef schnek::BlockParameters BP;
    T *tag = nullptr;
    typedef schnek::Array<T, R> A;
    std::shared_ptr<A> a(new A());
    for (size_t i = 0; i < R; ++i) (*a)[i] = as(sentinel(sp.t), tag);
    arrays.push_back(a);
    BP::Permissions perm = sp.kind == Spec::RO ? BP::readonly : BP::readwrite;
    bool std_ext = sp.ext == "xyzuvw";
    schnek::Array<schnek::pParameter, R> res;
    if (!sp.hasDefault) {
      if (std_ext) res = bp.addArrayParameter(sp.name, *a, perm);
      else res = bp.addArrayParameter(sp.name, *a, perm, sp.ext);
    } else if (sp.form == 0) {
      A d;
      for (size_t i = 0; i < R; ++i) d[i] = as(sp.def[i], tag);
      if (std_ext) res = bp.addArrayParameter(sp.name, *a, d, perm);
      else res = bp.addArrayParameter(sp.name, *a, d, perm, sp.ext);
    } else {
      if (std_ext) res = bp.addArrayParameter(sp.name, *a, as(sp.def[0], tag), perm);
      else res = bp.addArrayParameter(sp.name, *a, as(sp.def[0], tag), perm, sp.ext);
    }
    for (size_t i = 0; i < R; ++i) {
      Holder h;
      h.t = sp.t;
      h.kind = sp.kind;
      h.par = res[i];
      bind(h, &(*a)[i]);
      holders[sp.name + sp.ext[i]] = h;
    }
  }
  static void bind(Holder &h, int *p) { h.pi = p; }
  static void bind(Holder &h, double *p) { h.pd = p; }
  template <class T>
  void arrays_(schnek::BlockParameters &bp, const Spec &sp) {
    switch (sp.rank) {
      case 1: array<T, 1>(bp, sp); break;
      case 2: array<T, 2>(bp, sp); break;
      case 3: array<T, 3>(bp, sp); break;
      case 4: array<T, 4>(bp, sp); break;
      default: array<T, 6>(bp, sp); break;
    }
  }
  void initParameters(schnek::BlockParameters &bp) override {
    auto it = schemas->find(getLocalVariables()->getClassName());
    if (it == schemas->end()) return;
    for (const Spec &sp : it->second) {
      if (sp.rank) {
        if (sp.t == INT) arrays_<int>(bp, sp);
        else arrays_<double>(bp, sp);
      } else if (sp.t == INT) scalar<int>(bp, sp);
      else if (sp.t == FLT) scalar<double>(bp, sp);
      else scalar<std::string>(bp, sp);
    }
  }
  std::map<TestBlock *, std::map<std::string, Val>> *wantAll = nullptr;
  bool allSet();
  void registerData() override { log(0); }
  void preInit() override { log(1); }
  void init() override { log(2); }
  void postInit() override { log(3); }
  void log(int phase);
};

bool paramsSetEverywhere() {
  for (TestBlock *b : *instances)
    for (auto &h : b->holders)
      if (h.second.kind == Spec::RW && same(h.second.get(), sentinel(h.second.t))) return false;
  return true;
}
void TestBlock::log(int phase) {
  if (events) events->push_back(Event{phase, this, phase > 0 || paramsSetEverywhere()});
}

// ---- the reference side

struct Store {
  std::deque<int> i;
  std::deque<double> d;
  std::deque<std::string> s;
};

Val randomVal(pbt::Src &s, Type t) {
  if (t == INT) return Val((int)s.near0(-20, 20));
  if (t == FLT) return Val(s.real(-8, 8, 64));
  return Val(s.pick(std::vector<std::string>{"", "k", "two words", "x7"}));
}

Schema genSchema(pbt::Src &s, bool strings, int maxParams, int roShare) {
  Schema sc;
  std::set<std::string> taken;
  int n = (int)s.range(0, maxParams);
  for (int i = 0; i < n; ++i) {
    Spec sp;
    sp.name = s.pick(std::vector<std::string>{"p", "q", "r", "pos", "v", "a", "b"});
    int k = (int)s.range(0, 9);
    sp.kind = k < roShare ? Spec::RO : k == 9 ? Spec::CONST : Spec::RW;
    sp.rank = sp.kind != Spec::CONST && s.chance(1, 4) ? (int)s.pick(std::vector<int>{1, 2, 3, 4, 6}) : 0;
    sp.t = sp.rank ? (s.chance(1, 2) ? INT : FLT) : (Type)s.range(0, strings ? 2 : 1);
    sp.form = (int)s.range(0, 1);
    sp.ext = s.chance(1, 4) ? "012345" : "xyzuvw";
    sp.hasDefault = sp.kind == Spec::CONST || s.chance(3, 4);
    for (int j = 0; j < std::max(1, sp.rank); ++j) sp.def.push_back(randomVal(s, sp.t));
    bool dup = false;
    std::vector<std::string> names;
    if (!sp.rank) names.push_back(sp.name);
    for (int j = 0; j < sp.rank; ++j) names.push_back(sp.name + sp.ext[j]);
    for (auto &x : names) dup = dup || taken.count(x);
    if (dup) continue;
    taken.insert(names.begin(), names.end());
    sc.push_back(sp);
  }
  return sc;
}

void declare(Blk &b, const Schema &sc, Store &st) {
  for (const Spec &sp : sc) {
    for (int j = 0; j < std::max(1, sp.rank); ++j) {
      PVar v(new Var);
      v->name = sp.rank ? sp.name + sp.ext[j] : sp.name;
      v->t = sp.t;
      Val def = sp.rank && sp.form == 0 ? sp.def[j] : sp.def[0];
      if (sp.kind == Spec::RW) {
        v->init = sp.hasDefault;
        v->val = sp.hasDefault ? def : Val();
        if (!sp.hasDefault) v->val.t = sp.t;
      } else if (sp.kind == Spec::CONST) {
        v->readonly = true;
        v->val = def;
      } else {
        v->readonly = true;
        v->constant = false;
        Val x = sp.hasDefault ? def : sentinel(sp.t);
        if (sp.t == INT) st.i.push_back(x.i), v->pi = &st.i.back();
        else if (sp.t == FLT) st.d.push_back(x.d), v->pd = &st.d.back();
        else st.s.push_back(x.s), v->ps = &st.s.back();
      }
      b.vars[v->name] = v;
    }
  }
}

struct Case {
  std::map<std::string, Schema> sc;
  std::set<std::string> noFactory;
  std::vector<TestBlock *> inst;
  std::vector<Event> ev;
  Store store;
  Deck ref;
  bool refOk = false;
  Problems pr;
  std::string text;
  schnek::VariableStorage vars;
  schnek::FunctionRegistry reg;
  schnek::BlockClasses bc;
  schnek::pBlock root;
  Outcome out;
  std::map<TestBlock *, Blk *> refOf;
  std::vector<TestBlock *> order;  // document order

  Case() : vars("top", "main"), bc(false) {}
  ~Case() {
    instances = nullptr;
    events = nullptr;
    schemas = nullptr;
  }

  void build(pbt::Src &s, Gen &g) {
    g.onBlock = [&](GBlk &b) {
      auto it = sc.find(&b == &g.root ? "main" : b.cls);
      if (it == sc.end() || noFactory.count(b.cls)) return;
      for (const Spec &sp : it->second)
        for (int j = 0; j < std::max(1, sp.rank); ++j)
          b.vars[sp.rank ? sp.name + sp.ext[j] : sp.name] = GVar(sp.t, sp.kind == Spec::RW);
    };
    g.program();
    Layout lay;
    lay.wild = false;
    text = render(s, g.toks, lay, true);
    for (auto &c : sc) {
      NOTE(s) << c.first << (noFactory.count(c.first) ? " (no class)" : "") << ":";
      for (auto &sp : c.second)
        NOTE(s) << " " << (sp.kind == Spec::RO ? "readonly " : sp.kind == Spec::CONST ? "constant " : "") << typeName(sp.t) << " " << sp.name
                << (sp.rank ? "[" + std::to_string(sp.rank) + "]" + sp.ext : "") << (sp.hasDefault ? "=" + sp.def[0].show() : "");
      NOTE(s) << "\n";
    }
    NOTE(s) << text << "\n";
    // reference
    ref.funcs = functions();
    ref.root.name = "top";
    ref.root.cls = "main";
    ref.onBlock = [&](Blk &b) {
      auto it = sc.find(b.cls);
      if (it != sc.end() && !noFactory.count(b.cls)) declare(b, it->second, store);
    };
    ref.enterRoot();
    try {
      ref.run(g.toks);
      refOk = true;
    } catch (Problems &p) {
      pr = p;
    }
    // library
    schemas = &sc;
    instances = &inst;
    addFunctions(reg);
    for (auto &c : sc) {
      bc.registerBlock(c.first);
      if (!noFactory.count(c.first)) bc(c.first).setClass<TestBlock>();
    }
    schnek::Parser P(vars, reg, bc);
    std::istringstream in(text);
    out = guarded([&] { root = P.parse(in, "deck.in"); });
    CHECK(out.ok == refOk, (refOk ? "a correct file is rejected with " + out.message : "accepted, although it has an error: " + show(pr)));
  }

  void match() {
    compare(ref.root, vars.getRootBlock());
    TestBlock *r = dynamic_cast<TestBlock *>(root.get());
    CHECK(r, "parse() does not return the block of the root class");
    match(*r, ref.root, nullptr);
    CHECK(order.size() == inst.size(), "number of block objects " << inst.size() << ", blocks in the tree " << order.size());
  }

 private:
  void flat(Blk &b, std::vector<Blk *> &out) {
    for (auto &k : b.kids) {
      if (noFactory.count(k->cls)) flat(*k, out);
      else out.push_back(k.get());
    }
  }
  void match(TestBlock &t, Blk &b, TestBlock *parent) {
    refOf[&t] = &b;
    order.push_back(&t);
    CHECK(t.getParent().get() == parent, "parent of block " << b.name);
    CHECK(t.getName() == b.name, "name of block " << b.name << " is " << t.getName());
    CHECK(t.getLocalVariables()->getBlockName() == b.name && t.getVariables() == vars.getRootBlock(), "variables of block " << b.name);
    std::vector<Blk *> kids;
    flat(b, kids);
    std::vector<TestBlock *> tk = t.kids();
    CHECK(tk.size() == kids.size(), "block " << path(b) << " has " << tk.size() << " children, expected " << kids.size());
    for (size_t i = 0; i < tk.size(); ++i) match(*tk[i], *kids[i], &t);
  }
};

void genClassesFor(pbt::Src &s, Case &c, bool strings, int maxParams, int roShare, bool allowMissing) {
  for (auto &n : {"main", "C1", "C2", "C3"}) c.sc[n] = genSchema(s, strings, maxParams, roShare);
  if (!allowMissing)
    for (auto &x : c.sc)
      for (auto &sp : x.second) sp.hasDefault = true;
  if (s.chance(1, 4)) c.noFactory.insert(s.pick(std::vector<std::string>{"C1", "C2"}));
}

void checkBound(Case &c) {
  for (TestBlock *t : c.order)
    for (auto &h : t->holders) {
      if (h.second.kind == Spec::CONST) continue;
      Var &v = *c.refOf[t]->vars[h.first];
      Val want = v.external() ? v.ext() : v.val;
      CHECK(same(h.second.get(), want), "parameter " << h.first << " of " << path(*c.refOf[t]) << " is " << h.second.get().show() << ", expected " << want.show());
    }
}

}  // namespace

/// groups of parameters
PROPERTY(parameter_groups) {
  using namespace schnek;
  VariableStorage vs("top", "main");
  BlockParameters bp;
  bp.setContext(vs.getRootBlock());
  std::deque<int> ints;
  std::deque<double> dbls;
  std::vector<pParameter> par;
  std::vector<pVariable> var;
  Array<double, 3> vec;
  Array<pParameter, 3> arr = bp.addArrayParameter("vec", vec, 0.0);
  int n = (int)s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    std::string name = "p" + std::to_string(i);
    if (s.chance(1, 3)) ints.push_back(i), par.push_back(bp.addParameter(name, &ints.back(), i));
    else if (s.chance(1, 3)) par.push_back(bp.addConstant(name, i));
    else dbls.push_back(i), par.push_back(bp.addParameter(name, &dbls.back()));
    var.push_back(par.back()->getVariable());
  }
  for (int i = 0; i < 3; ++i) par.push_back(arr[i]), var.push_back(arr[i]->getVariable());
  // variables that are not parameters
  for (int i = 0; i < 2; ++i) var.push_back(pVariable(new Variable(i)));
  std::vector<ParametersGroup> g(2);
  std::vector<std::set<size_t>> in(2);
  int steps = (int)s.range(1, 14);
  for (int i = 0; i < steps; ++i) {
    size_t k = s.draw(2), j = s.draw(var.size());
    switch (s.range(0, 4)) {
      case 0:
        if (j >= par.size()) break;
        NOTE(s) << "group " << k << " add parameter " << j << "; ";
        g[k].add(par[j]), in[k].insert(j);
        break;
      case 1:
        NOTE(s) << "group " << k << " add variable " << j << "; ";
        g[k].add(var[j]), in[k].insert(j);
        break;
      case 2:
        NOTE(s) << "group " << k << " add array; ";
        g[k].addArray(arr);
        for (int d = 0; d < 3; ++d) in[k].insert(n + d);
        break;
      case 3:
        CHECK(g[k].isElement(var[j]) == (in[k].count(j) > 0), "variable " << j << " in group " << k);
        if (j < par.size()) CHECK(g[k].isElement(par[j]) == (in[k].count(j) > 0), "parameter " << j << " in group " << k);
        break;
      default: {
        std::set<long> ids, rest;
        int m = (int)s.range(0, 5);
        for (int q = 0; q < m; ++q) {
          size_t x = s.draw(var.size());
          ids.insert(var[x]->getId());
          if (!in[k].count(x)) rest.insert(var[x]->getId());
        }
        bool all = g[k].hasElements(ids);
        CHECK(ids == rest, "group " << k << ": the ids left over are not those outside the group (" << ids.size() << " of " << rest.size() << ")");
        CHECK(all == rest.empty(), "group " << k << (all ? " claims to have all ids" : " denies to have all ids"));
        if (m > 1) s.nontrivial();
      }
    }
  }
}

/// parameters end up in the program's variables
PROPERTY(block_parameters) {
  Case c;
  genClassesFor(s, c, true, 5, 2, s.chance(1, 3));
  GenOptions o;
  o.maxStatements = 14;
  o.pBlock = 5;
  o.pAssign = 9;
  o.pDecl = 2;
  o.depth = 1;
  o.sloppy = s.chance(1, 6) ? 100 : 0;
  o.calm = s.chance(3, 4);
  Gen g(s, o);
  g.large();
  c.build(s, g);
  s.label(c.refOk ? "accepted" : "rejected: " + c.pr[0].what.substr(0, 14));
  if (!c.refOk) return;
  c.match();
  std::set<std::string> missing;
  size_t nRW = 0;
  for (TestBlock *t : c.order)
    for (auto &h : t->holders) {
      Var &v = *c.refOf[t]->vars[h.first];
      if (!v.init) missing.insert(h.first);
      if (!v.external() && v.init && !v.defined) throw pbt::Discard();
      nRW += h.second.kind == Spec::RW;
      // nothing is stored before the parameters are evaluated
      if (h.second.kind == Spec::RW)
        CHECK(same(h.second.get(), sentinel(h.second.t)), "parameter " << h.first << " of " << path(*c.refOf[t]) << " was set while reading the file");
      CHECK(h.second.par->canEvaluate() == v.init, "canEvaluate() of " << h.first);
    }
  std::string name;
  bool all = s.chance(1, 2);
  TestBlock *from = c.order[s.draw(c.order.size())];
  Outcome r;
  try {
    if (all) from->initAll();
    else c.root->evaluateParameters();
    r.ok = true;
  } catch (schnek::VariableNotInitialisedException &e) {
    name = e.getVarName();
  }
  if (missing.empty()) CHECK(r.ok, "parameter " << name << " reported as not initialised");
  else {
    CHECK(!r.ok, "a parameter without default that the file does not set is not reported");
    CHECK(missing.count(name), "parameter " << name << " reported as not initialised");
    s.label("missing parameter");
  }
  if (nRW >= 2) s.nontrivial();
  if (r.ok) checkBound(c);
}

/// dependent variables follow the variables they depend on
PROPERTY(block_dependencies) {
  Case c;
  genClassesFor(s, c, s.chance(1, 3), 5, 4, false);
  GenOptions o;
  o.maxStatements = 18;
  o.pBlock = 4;
  o.pAssign = 12;
  o.pDecl = 5;
  o.depth = (int)s.range(0, 1);
  o.sloppy = 0;
  o.noFail = true;
  o.calm = true;
  o.refBias = 7;
  Gen g(s, o);
  c.build(s, g);
  if (!c.refOk) throw pbt::Discard();
  c.match();
  c.root->evaluateParameters();
  checkBound(c);
  struct P {
    TestBlock *t;
    std::string n;
    Holder *h;
    Var *v;
    std::string show() const { return n; }
  };
  std::vector<P> indep, dep;
  for (TestBlock *t : c.order)
    for (auto &h : t->holders) {
      P p{t, h.first, &h.second, c.refOf[t]->vars[h.first].get()};
      if (p.v->external()) indep.push_back(p);
      else if (h.second.kind == Spec::RW) dep.push_back(p);
    }
  if (dep.empty()) throw pbt::Discard();
  // a read only parameter may be asked for as well: it is the program's own and stays as it is
  if (!indep.empty() && s.chance(1, 6)) dep.push_back(indep[s.draw(indep.size())]);
  using namespace schnek;
  pDependencyMap dm(new DependencyMap(c.vars.getRootBlock()));
  struct Up {
    pDependencyUpdater u;
    std::vector<size_t> in;
    std::set<size_t> out;
  };
  std::vector<Up> ups((size_t)s.range(1, 3));
  for (auto &u : ups) u.u.reset(new DependencyUpdater(dm));
  auto value = [&](const P &p) {
    try {
      PNode n(new Node);
      n->op = 'r', n->t = p.v->t;
      n->var = PVar(p.v, [](Var *) {});
      return eval(n, true);
    } catch (EvalError &) {
      throw pbt::Discard();
    }
  };
  // every variable has to be computable, now and after each change
  auto checkAll = [&] {
    std::vector<PVar> nc;
    c.ref.collect(c.ref.root, nc);
    for (auto &v : nc) {
      if (v->external()) continue;
      try {
        eval(v->expr, true);
      } catch (EvalError &) {
        throw pbt::Discard();
      }
    }
  };
  checkAll();
  // most updaters start with some of both kinds, one by one or as arrays of parameters
  auto addArrays = [&](Up &u, bool isIn) {
    const std::vector<P> &all = isIn ? indep : dep;
    if (all.size() < 2) return;
    size_t a = s.draw(all.size()), b = s.draw(all.size()), n3 = s.draw(all.size());
    bool three = s.chance(1, 2);
    NOTE(s) << (isIn ? "independent" : "dependent") << " array " << all[a].n << " of " << path(*c.refOf[all[a].t]) << ", " << all[b].n << " of "
            << path(*c.refOf[all[b].t]);
    if (three) NOTE(s) << ", " << all[n3].n << " of " << path(*c.refOf[all[n3].t]);
    NOTE(s) << "\n";
    if (three) {
      Array<pParameter, 3> ps(all[a].h->par, all[b].h->par, all[n3].h->par);
      if (isIn) u.u->addIndependentArray(ps);
      else u.u->addDependentArray(ps);
    } else {
      Array<pParameter, 2, ArrayAssertArgCheck> ps(all[a].h->par, all[b].h->par);
      if (isIn) u.u->addIndependentArray(ps);
      else u.u->addDependentArray(ps);
    }
    for (size_t i : {a, b, three ? n3 : b}) {
      if (isIn) u.in.push_back(i);
      else u.out.insert(i);
    }
  };
  for (size_t w = 0; w < ups.size(); ++w) {
    if (s.chance(1, 4)) {
      NOTE(s) << "updater " << w << " ";
      addArrays(ups[w], true);
      addArrays(ups[w], false);
      NOTE(s) << "\n";
      if (s.chance(1, 2)) continue;
    }
    for (size_t i = 0; i < indep.size(); ++i)
      if (s.chance(1, 2)) {
        NOTE(s) << "updater " << w << " independent " << indep[i].n << " of " << path(*c.refOf[indep[i].t]) << "\n";
        ups[w].u->addIndependent(indep[i].h->par);
        ups[w].in.push_back(i);
      }
    for (size_t i = 0; i < dep.size(); ++i)
      if (s.chance(1, 2)) {
        NOTE(s) << "updater " << w << " dependent " << dep[i].n << " of " << path(*c.refOf[dep[i].t]) << "\n";
        ups[w].u->addDependent(dep[i].h->par);
        ups[w].out.insert(i);
      }
  }
  size_t last = 0;
  bool fresh = true;
  int nops = (int)s.range(2, 14), updates = 0, live = 0;
  for (int k = 0; k < nops; ++k) {
    size_t w = s.draw(ups.size());
    Up &u = ups[w];
    auto resync = [&] {
      NOTE(s) << "updateAll\n";
      dm->updateAll();
      fresh = true;
    };
    switch (s.range(0, 7)) {
      case 0:
      case 1:
        if (!indep.empty()) {
          size_t i = s.draw(indep.size());
          NOTE(s) << "updater " << w << " independent " << indep[i].n << " of " << path(*c.refOf[indep[i].t]) << "\n";
          u.u->addIndependent(indep[i].h->par);
          u.in.push_back(i);
        }
        break;
      case 2:
      case 3: {
        if (!fresh) resync();
        size_t i = s.draw(dep.size());
        NOTE(s) << "updater " << w << " dependent " << dep[i].n << " of " << path(*c.refOf[dep[i].t]) << "\n";
        u.u->addDependent(dep[i].h->par);
        u.out.insert(i);
        break;
      }
      case 4:
        if (s.chance(1, 3)) {
          NOTE(s) << "updater " << w << " clearDependent\n";
          u.u->clearDependent();
          u.out.clear();
        } else if (s.chance(1, 2)) {
          NOTE(s) << "recreate\n";
          dm->recreate();
        }
        break;
      default: {
        if (w != last && !fresh) resync();
        last = w;
        bool changed = false;
        for (size_t i : u.in) {
          if (s.chance(1, 3)) continue;
          Val v = randomVal(s, indep[i].h->t);
          NOTE(s) << indep[i].n << "=" << v.show() << " ";
          indep[i].h->set(v);
          if (indep[i].v->pi) *indep[i].v->pi = v.i;
          else if (indep[i].v->pd) *indep[i].v->pd = v.d;
          else *indep[i].v->ps = v.s;
          changed = true;
        }
        if (s.chance(1, 2)) {
          tick_i = (int)s.range(0, 9);
          tick_d = s.real(-2, 2, 8);
        }
        checkAll();
        NOTE(s) << "updater " << w << " update\n";
        std::map<Holder *, Val> before;
        for (TestBlock *t : c.order)
          for (auto &h : t->holders)
            if (h.second.kind != Spec::CONST) before[&h.second] = h.second.get();
        for (size_t i : u.out) before.erase(dep[i].h);
        u.u->update();
        for (auto &b : before) CHECK(same(b.first->get(), b.second), "the update wrote a parameter that it was not asked to update");
        fresh = false;
        ++updates;
        for (size_t i : u.out) {
          Val want = value(dep[i]);
          CHECK(same(dep[i].h->get(), want), "after the update " << dep[i].n << " of " << path(*c.refOf[dep[i].t]) << " is " << dep[i].h->get().show()
                << ", a full evaluation gives " << want.show());
          if (changed && !dep[i].v->constant) ++live;
        }
      }
    }
  }
  if (live) s.nontrivial();
  s.label(live ? "updates of live variables" : updates ? "updates" : "no update");
}

/// the phases of the initialisation
PROPERTY(block_lifecycle) {
  Case c;
  genClassesFor(s, c, true, 2, 0, false);
  for (auto &x : c.sc)
    for (auto &sp : x.second)
      for (auto &d : sp.def)
        if (same(d, sentinel(sp.t))) d = sp.t == INT ? Val(1) : Val(1.5);
  GenOptions o;
  o.maxStatements = 24;
  o.pBlock = 9;
  o.pClose = 6;
  o.pAssign = 1;
  o.pDecl = 1;
  o.depth = 0;
  o.sloppy = 0;
  o.noFail = true;
  Gen g(s, o);
  g.large();
  c.build(s, g);
  if (!c.refOk) throw pbt::Discard();
  c.match();
  for (TestBlock *t : c.order)
    for (auto &h : t->holders) {
      Var &v = *c.refOf[t]->vars[h.first];
      if (h.second.kind == Spec::RW && same(v.val, sentinel(v.t))) throw pbt::Discard();
    }
  size_t from = s.draw(c.order.size());
  NOTE(s) << "initAll from block number " << from << "\n";
  events = &c.ev;
  c.order[from]->initAll();
  events = nullptr;
  static const char *ph[] = {"registerData", "preInit", "init", "postInit"};
  size_t n = c.order.size();
  CHECK(c.ev.size() == 4 * n, c.ev.size() << " calls for " << n << " blocks, expected four each");
  for (size_t i = 0; i < c.ev.size(); ++i) {
    const Event &e = c.ev[i];
    TestBlock *t = dynamic_cast<TestBlock *>(e.b);
    CHECK(e.phase == (int)(i / n), "call " << i << " is " << ph[e.phase] << " of " << path(*c.refOf[t]) << ", expected " << ph[i / n]);
    CHECK(t == c.order[i % n], ph[e.phase] << " call number " << i % n << " is for " << path(*c.refOf[t]) << ", expected " << path(*c.refOf[c.order[i % n]]));
    CHECK(e.paramsSet, ph[e.phase] << " of " << path(*c.refOf[t]) << " is called before all parameters are set");
  }
  checkBound(c);
  if (n >= 3) s.nontrivial();
  s.label(n >= 6 ? "six or more blocks" : "fewer blocks");
}

// ---- containers

namespace {

struct KidX : public schnek::ChildBlock<KidX> {
  int tag = 0;
};
struct KidX2 : public KidX {};
struct KidY : public schnek::ChildBlock<KidY>, public schnek::BlockContainer<KidX> {
  std::vector<KidX *> xs() {
    std::vector<KidX *> r;
    for (auto p : childBlocks()) r.push_back(p.get());
    return r;
  }
  size_t nx() { return numChildren(); }
};
struct Box : public schnek::Block, public schnek::BlockContainer<KidX>, public schnek::BlockContainer<KidY> {
  template <class K>
  std::vector<K *> list() {
    std::vector<K *> r;
    for (auto p : schnek::BlockContainer<K>::childBlocks()) r.push_back(p.get());
    return r;
  }
  template <class K>
  size_t count() {
    return schnek::BlockContainer<K>::numChildren();
  }
};
struct Plain : public schnek::Block {};

struct CNode {
  int kind;  // 0 Box 1 KidX 2 KidX2 3 KidY 4 Plain
  std::vector<std::shared_ptr<CNode>> kids;
  std::string name;
};

}  // namespace

PROPERTY(block_containers) {
  static const char *cls[] = {"Box", "KidX", "KidX2", "KidY", "Plain"};
  std::string text;
  int id = 0, total = 0;
  std::function<void(CNode &, int)> fill = [&](CNode &n, int depth) {
    int k = depth > 0 ? (int)s.range(0, 4) : 0;
    for (int i = 0; i < k; ++i) {
      std::shared_ptr<CNode> c(new CNode);
      c->kind = (int)s.range(0, 4);
      c->name = "n" + std::to_string(id++);
      ++total;
      text += std::string(cls[c->kind]) + " " + c->name + " {\n";
      fill(*c, depth - 1);
      text += "}\n";
      n.kids.push_back(c);
    }
  };
  CNode root;
  root.kind = 0;
  root.name = "top";
  fill(root, 3);
  text = "int unused = 1;\n" + text;
  NOTE(s) << text;
  schnek::BlockClasses bc(false);
  bc.registerBlock("Box").setClass<Box>();
  bc.registerBlock("KidX").setClass<KidX>();
  bc.registerBlock("KidX2").setClass<KidX2>();
  bc.registerBlock("KidY").setClass<KidY>();
  bc.registerBlock("Plain").setClass<Plain>();
  schnek::Parser P("top", "Box", bc);
  std::istringstream in(text);
  schnek::pBlock r = P.parse(in, "deck.in");
  r->initAll();
  // walk the containers; a block's own objects are found by name
  size_t checked = 0;
  std::function<void(schnek::Block *, CNode &)> visit = [&](schnek::Block *b, CNode &n) {
    CHECK(b->getName() == n.name, "block " << b->getName() << " where " << n.name << " is expected");
    auto names = [&](std::initializer_list<int> kinds) {
      std::vector<CNode *> v;
      for (auto &k : n.kids)
        if (std::find(kinds.begin(), kinds.end(), k->kind) != kinds.end()) v.push_back(k.get());
      return v;
    };
    if (Box *x = dynamic_cast<Box *>(b)) {
      std::vector<CNode *> wx = names({1, 2}), wy = names({3});
      std::vector<KidX *> gx = x->list<KidX>();
      std::vector<KidY *> gy = x->list<KidY>();
      CHECK(gx.size() == wx.size() && x->count<KidX>() == wx.size(), "container " << n.name << " holds " << gx.size() << " KidX, expected " << wx.size());
      CHECK(gy.size() == wy.size() && x->count<KidY>() == wy.size(), "container " << n.name << " holds " << gy.size() << " KidY, expected " << wy.size());
      for (size_t i = 0; i < gx.size(); ++i) {
        CHECK(gx[i]->getName() == wx[i]->name, "KidX number " << i << " of " << n.name << " is " << gx[i]->getName());
        visit(gx[i], *wx[i]);
        ++checked;
      }
      for (size_t i = 0; i < gy.size(); ++i) {
        CHECK(gy[i]->getName() == wy[i]->name, "KidY number " << i << " of " << n.name << " is " << gy[i]->getName());
        visit(gy[i], *wy[i]);
        ++checked;
      }
    } else if (KidY *x = dynamic_cast<KidY *>(b)) {
      std::vector<CNode *> wx = names({1, 2});
      std::vector<KidX *> gx = x->xs();
      CHECK(gx.size() == wx.size() && x->nx() == wx.size(), "container " << n.name << " holds " << gx.size() << " KidX, expected " << wx.size());
      for (size_t i = 0; i < gx.size(); ++i) {
        CHECK(gx[i]->getName() == wx[i]->name, "KidX number " << i << " of " << n.name << " is " << gx[i]->getName());
        ++checked;
      }
    }
  };
  visit(r.get(), root);
  if (checked >= 2) s.nontrivial();
}

// ---- shared data

namespace {

struct DNode {
  std::string name;
  DNode *parent = nullptr;
  std::vector<DNode *> kids;
  schnek::pBlock b;
  std::map<std::string, int *> ints;
  std::map<std::string, double *> dbls;
  std::map<std::string, int **> ptrs;
};
struct Dup {};

template <class T>
struct Table;
template <>
struct Table<int> {
  static std::map<std::string, int *> &of(DNode &n) { return n.ints; }
};
template <>
struct Table<double> {
  static std::map<std::string, double *> &of(DNode &n) { return n.dbls; }
};
template <>
struct Table<int *> {
  static std::map<std::string, int **> &of(DNode &n) { return n.ptrs; }
};

/// the rule: the block itself, a path downwards, the enclosing blocks, at last anywhere below if unique
template <class T>
T *resolve(DNode &n, const std::string &key, bool up) {
  auto it = Table<T>::of(n).find(key);
  if (it != Table<T>::of(n).end()) return it->second;
  size_t dot = key.find('.');
  if (dot != std::string::npos) {
    std::vector<T *> f;
    for (DNode *k : n.kids)
      if (k->name == key.substr(0, dot))
        if (T *p = resolve<T>(*k, key.substr(dot + 1), false)) f.push_back(p);
    if (f.size() > 1) throw Dup();
    if (f.size() == 1) return f[0];
  }
  if (up && n.parent) return resolve<T>(*n.parent, key, true);
  std::vector<T *> f;
  for (DNode *k : n.kids)
    if (T *p = resolve<T>(*k, key, false)) f.push_back(p);
  if (f.size() > 1) throw Dup();
  return f.empty() ? nullptr : f[0];
}

}  // namespace

PROPERTY(block_data) {
  using namespace schnek;
  std::deque<int> ints;
  std::deque<double> dbls;
  std::deque<int *> ptrs;
  std::vector<DNode> nodes;
  bool large = s.chance(1, 30);  // many blocks, many keys
  int n = (int)(large ? s.range(5, 60) : s.range(1, 9));
  nodes.reserve(n);
  // the tree comes from a setup file: that is how blocks get their parents
  std::vector<std::vector<int>> kids(n);
  for (int i = 1; i < n; ++i) kids[(int)s.range(0, i - 1)].push_back(i);
  static int serial = 0;
  std::string text = "int unused = 1;\n";
  std::vector<std::string> names(n);
  names[0] = "top";
  std::vector<int> pre;
  std::function<void(int, DNode *)> write = [&](int i, DNode *parent) {
    nodes.emplace_back();
    DNode &d = nodes.back();
    d.name = names[i];
    d.parent = parent;
    if (parent) parent->kids.push_back(&d);
    std::set<std::string> used;
    for (int k : kids[i]) {
      std::string nm = s.pick(std::vector<std::string>{"A", "B", "C"});
      while (used.count(nm)) nm += "1";
      used.insert(nm);
      names[k] = nm;
      text += "N " + nm + " {\n";
      write(k, &d);
      text += "}\n";
    }
  };
  write(0, nullptr);
  (void)serial;
  NOTE(s) << text;
  BlockClasses bc(false);
  struct Node_ : public Block {
    BlockList c() { return getChildren(); }
  };
  bc.registerBlock("N").setClass<Node_>();
  Parser P("top", "N", bc);
  std::istringstream in(text);
  pBlock root = P.parse(in, "deck.in");
  size_t pos = 0;
  std::function<void(pBlock)> link = [&](pBlock b) {
    DNode &d = nodes[pos++];
    d.b = b;
    CHECK(b->getName() == d.name, "name " << b->getName());
    for (pBlock k : dynamic_cast<Node_ *>(b.get())->c()) link(k);
  };
  link(root);
  CHECK(pos == nodes.size(), "number of blocks");
  // programs can give blocks other names, equal ones among them
  if (s.chance(1, 2))
    for (auto &d : nodes)
      if (d.parent && s.chance(1, 2)) {
        d.name = s.pick(std::vector<std::string>{"A", "A", "B"});
        d.b->setName(d.name);
        NOTE(s) << "rename #" << &d - &nodes[0] << " to " << d.name << "\n";
        CHECK(d.b->getName() == d.name, "name " << d.b->getName() << " after renaming");
      }
  std::vector<std::string> keys = {"x", "y", "E", "A.x", "B.x", "A.B.x", "A.A.x", "C.y", "A1.x"};
  if (large)
    for (int i = 0; i < 40; ++i) keys.push_back("key" + std::to_string(i));
  int nops = (int)(large ? s.range(30, 250) : s.range(2, 24)), found = 0, missing = 0, dups = 0;
  std::vector<std::pair<int, std::string>> added;
  size_t few = large && s.chance(1, 2) ? 2 : nodes.size();  // most of it at few blocks
  for (int k = 0; k < nops; ++k) {
    DNode &d = nodes[s.draw(std::min(few, nodes.size()))];
    std::string key = s.chance(1, 2) ? s.pick(keys) : keys[s.draw(3)];
    if (!added.empty() && s.chance(1, 2)) {
      // a key that exists somewhere, possibly with the name of its block in front
      const std::pair<int, std::string> &a = added[s.draw(added.size())];
      key = a.second;
      DNode *up = &nodes[a.first];
      for (int j = (int)s.range(0, 3); j > 0 && up->parent; --j, up = up->parent) key = up->name + "." + key;
    }
    if (s.chance(1, 2)) {
      int ty = (int)s.range(0, 2);
      NOTE(s) << "add " << (ty == 0 ? "int " : ty == 1 ? "double " : "int* ") << key << " to " << d.name << " #" << &d - &nodes[0] << "\n";
      added.push_back({(int)(&d - &nodes[0]), key});
      if (ty == 0) {
        ints.push_back(100 + k);
        d.b->addData(key, ints.back());
        d.ints[key] = &ints.back();
      } else if (ty == 1) {
        dbls.push_back(1000.5 + k);
        d.b->addData(key, dbls.back());
        d.dbls[key] = &dbls.back();
      } else {
        ints.push_back(200 + k);
        ptrs.push_back(&ints.back());
        d.b->addData(key, ptrs.back());
        d.ptrs[key] = &ptrs.back();
      }
      continue;
    }
    int how = (int)s.range(0, 2);  // int&, int*&, double&
    NOTE(s) << "retrieve " << (how == 0 ? "int& " : how == 1 ? "int*& " : "double*& ") << key << " from " << d.name << " #" << &d - &nodes[0] << "\n";
    const void *want = nullptr;
    bool dup = false;
    int wantVal = 0;
    try {
      if (how == 0) {
        int *p = resolve<int>(d, key, true);
        want = p;
        if (p) wantVal = *p;
      } else if (how == 1) {
        int **pp = resolve<int *>(d, key, true);
        want = pp ? *pp : resolve<int>(d, key, true);
      } else want = resolve<double>(d, key, true);
    } catch (Dup &) {
      dup = true;
    }
    const void *got = nullptr;
    int gotVal = -1;
    std::string ex;
    try {
      if (how == 0) {
        d.b->retrieveData(key, gotVal);
        got = want;
        CHECK(want && gotVal == wantVal, "retrieveData gives " << gotVal << ", expected " << (want ? std::to_string(wantVal) : "an exception"));
      } else if (how == 1) {
        int *p = nullptr;
        d.b->retrieveData(key, p);
        got = p;
      } else {
        double *p = nullptr;
        d.b->retrieveData(key, p);
        got = p;
      }
    } catch (VariableNotFoundException &) {
      ex = "not found";
    } catch (DuplicateVariableException &) {
      ex = "duplicate";
    }
    CHECK((ex == "duplicate") == dup, "ambiguity: expected " << dup << ", got " << (ex.empty() ? "data" : ex));
    if (dup) {
      ++dups;
      continue;
    }
    CHECK((ex == "not found") == !want, "expected " << (want ? "to find it" : "no such data") << ", got " << (ex.empty() ? "data" : ex));
    CHECK(want == got, "retrieveData finds other data");
    ++(want ? found : missing);
  }
  if (found) s.nontrivial();
  if (dups) s.label("ambiguous");
  if (missing) s.label("missing");
  if (found) s.label("found");
}

// ---- filling fields from the setup file

namespace {

template <class T>
T pick_(const Val &v);
template <>
int pick_<int>(const Val &v) { return v.i; }
template <>
double pick_<double>(const Val &v) { return v.d; }

struct AnyField {
  virtual ~AnyField() {}
  virtual void fill(schnek::DependencyUpdater &u, schnek::pParameter p) = 0;  // p empty: the form without
  virtual void add(schnek::FieldFiller &f, schnek::DependencyUpdater &u) = 0;
  virtual void check(const std::string &what) = 0;   // against the model
  virtual void model(bool touched) = 0;              // what a fill has to give
  std::string name;
};

template <class T, size_t R, template <typename, size_t> class S>
struct OneField : public AnyField {
  typedef schnek::Field<T, R, schnek::GridNoArgCheck, S> F;
  typedef schnek::Array<int, R> I;
  F f;
  schnek::Array<double, R> &coords;
  T &value;
  std::vector<double *> refCoords;
  std::function<Val()> refValue;
  I inLo, inHi;
  int ghost;
  double min[R], max[R];
  bool stagger[R];
  std::vector<T> want;

  OneField(pbt::Src &s, schnek::Array<double, R> &c, T &v) : coords(c), value(v) {
    schnek::Range<double, R> dom;
    schnek::Array<bool, R> st;
    ghost = (int)s.range(0, 2);
    for (size_t i = 0; i < R; ++i) {
      inLo[i] = (int)s.near0(-6, 6);
      inHi[i] = inLo[i] + (int)s.range(0, R == 1 ? 7 : R == 2 ? 3 : 1);
      min[i] = s.real(-4, 4, 16);
      max[i] = min[i] + s.real(0.25, 6, 16);
      dom.getLo()[i] = min[i];
      dom.getHi()[i] = max[i];
      stagger[i] = st[i] = s.chance(1, 2);
      NOTE(s) << " [" << inLo[i] << "," << inHi[i] << "]=" << min[i] << ".." << max[i] << (stagger[i] ? "s" : "");
    }
    NOTE(s) << " ghost " << ghost << "\n";
    F g(inLo, inHi, dom, st, ghost);
    if (s.chance(1, 2)) f = g;
    else f.resize(inLo, inHi, dom, st, ghost);
    T k = 0;
    each([&](const I &p) {
      f.get(p) = k;
      want.push_back(k);
      k += 1;
    });
  }
  template <class G>
  void each(G g) {
    I p = inLo - ghost;
    for (;;) {
      g(p);
      size_t d = R;
      while (d > 0) {
        --d;
        if (++p[d] <= inHi[d] + ghost) break;
        p[d] = inLo[d] - ghost;
        if (d == 0) return;
      }
    }
  }
  void fill(schnek::DependencyUpdater &u, schnek::pParameter p) override {
    if (p) schnek::fill_field(f, coords, value, u, p);
    else schnek::fill_field(f, coords, value, u);
  }
  void add(schnek::FieldFiller &fl, schnek::DependencyUpdater &u) override { fl.set(coords, u)(f, value); }
  double position(const I &p, size_t i) const {
    return min[i] + (p[i] - inLo[i] + (stagger[i] ? 0.5 : 0.0)) * ((max[i] - min[i]) / (inHi[i] - inLo[i] + 1));
  }
  bool filled = false;
  void model(bool) override {
    filled = true;
    size_t k = 0;
    each([&](const I &p) {
      for (size_t i = 0; i < R; ++i)
        *refCoords[i] = position(p, i);
      want[k++] = pick_<T>(refValue());
    });
  }
  void check(const std::string &what) override {
    size_t k = 0;
    for (size_t i = 0; i < R; ++i)
      CHECK(f.getLo()[i] == inLo[i] - ghost && f.getHi()[i] == inHi[i] + ghost, what << ": the limits of " << name << " changed");
    each([&](const I &p) {
      T &wk = want[k++];
      double g = (double)f.get(p), w = (double)wk;
      bool ok = g == w || (std::isnan(g) && std::isnan(w)) || std::fabs(g - w) <= 1e-9 * (1 + std::fabs(w));
      if (!ok) {
        // an expression may be discontinuous: the value at the field's own rounding of the same position is right, too
        bool near = true;
        for (size_t i = 0; i < R; ++i) {
          double exact = position(p, i), x = f.indexToPosition(i, p[i]);
          near = near && std::fabs(x - exact) <= 1e-13 * (std::fabs(min[i]) + std::fabs(max[i]) + std::fabs(exact));
          *refCoords[i] = x;
        }
        double w2 = (double)pick_<T>(refValue());
        ok = near && filled && (g == w2 || std::fabs(g - w2) <= 1e-9 * (1 + std::fabs(w2)));
        if (ok) wk = f.get(p);
      }
      CHECK(ok, what << ": cell " << p[0] << (R > 1 ? "," + std::to_string(p[R > 1 ? 1 : 0]) : "") << (R > 2 ? "," + std::to_string(p[R > 2 ? 2 : 0]) : "") << " of "
                     << name << " is " << g << ", expected " << w);
    });
  }
};

template <size_t R>
void fillCase(pbt::Src &s) {
  using namespace schnek;
  Case c;
  genClassesFor(s, c, false, 3, 3, false);
  Schema &sc = c.sc["main"];
  sc.clear();
  Spec co;
  co.name = "";
  co.ext = "xyzuvw";
  co.rank = R;
  co.kind = Spec::RO;
  co.t = FLT;
  co.form = 1;
  co.hasDefault = true;
  co.def.assign(R, Val(0.25));
  sc.push_back(co);
  Spec t;
  t.name = "t";
  t.rank = 0;
  t.kind = Spec::RO;
  t.t = FLT;
  t.form = 0;
  t.hasDefault = true;
  t.def.assign(1, Val(1.5));
  sc.push_back(t);
  int nt = (int)s.range(1, 4);
  for (int i = 0; i < nt; ++i) {
    Spec f = t;
    f.name = "f" + std::to_string(i);
    f.kind = Spec::RW;
    f.t = s.chance(1, 4) ? INT : FLT;
    f.def.assign(1, f.t == INT ? Val(i) : Val(i + 0.5));
    sc.push_back(f);
  }
  GenOptions o;
  o.maxStatements = 14;
  o.pBlock = 2;
  o.pAssign = 14;
  o.pDecl = 6;
  o.depth = (int)s.range(0, 2);
  o.sloppy = 0;
  o.noFail = true;
  o.calm = true;
  o.refBias = 8;
  o.strings = false;
  Gen g(s, o);
  if (g.varNames.size() < 40) g.varNames = {"a", "b", "x", "y", "z", "t", "g0", "g1"};
  c.build(s, g);
  if (!c.refOk) throw pbt::Discard();
  c.match();
  c.root->evaluateParameters();
  TestBlock &top = *c.order[0];
  Blk &rtop = *c.refOf[&top];
  Array<double, R> &coords = *std::static_pointer_cast<Array<double, R>>(top.arrays[0]);
  std::vector<double *> rc;
  std::vector<pParameter> pc;
  for (size_t i = 0; i < R; ++i) {
    std::string n(1, "xyz"[i]);
    rc.push_back(rtop.vars[n]->pd);
    pc.push_back(top.holders[n].par);
    CHECK(top.holders[n].pd == &coords[i], "harness");
  }
  auto evalVar = [&](Var *v) {
    try {
      PNode n(new Node);
      n->op = 'r', n->t = v->t;
      n->var = PVar(v, [](Var *) {});
      return eval(n, true);
    } catch (EvalError &) {
      throw pbt::Discard();
    }
  };
  pDependencyMap dm(new DependencyMap(c.vars.getRootBlock()));
  DependencyUpdater up(dm), up2(dm);
  for (size_t i = 0; i < R; ++i) up.addIndependent(pc[i]), up2.addIndependent(pc[i]);
  up.addIndependent(top.holders["t"].par);
  up2.addIndependent(top.holders["t"].par);
  std::vector<std::shared_ptr<AnyField>> fs;
  std::vector<std::string> from;
  int live = 0;
  int nf = (int)s.range(1, 4);
  for (int i = 0; i < nf; ++i) {
    std::string n = "f" + std::to_string(s.draw(nt));
    Holder &h = top.holders[n];
    Var *v = rtop.vars[n].get();
    NOTE(s) << "field " << i << " from " << n;
    std::function<Val()> rv = [=] { return evalVar(v); };
    if (h.pi) {
      auto p = new OneField<int, R, SingleArrayGridStorage>(s, coords, *h.pi);
      p->refCoords = rc, p->refValue = rv;
      fs.emplace_back(p);
    } else if (s.chance(1, 3)) {
      auto p = new OneField<double, R, SingleArrayGridStorageFortran>(s, coords, *h.pd);
      p->refCoords = rc, p->refValue = rv;
      fs.emplace_back(p);
    } else {
      auto p = new OneField<double, R, SingleArrayGridStorage>(s, coords, *h.pd);
      p->refCoords = rc, p->refValue = rv;
      fs.emplace_back(p);
    }
    fs.back()->name = "field " + std::to_string(i);
    from.push_back(n);
    live += !v->constant;
  }
  std::set<std::string> inUp, inUp2;
  FieldFiller filler;
  std::vector<int> inFiller;
  int nops = (int)s.range(1, 7), fills = 0;
  auto setT = [&] {
    if (!s.chance(1, 2)) return;
    double x = s.real(-3, 3, 16);
    *top.holders["t"].pd = x;
    *rtop.vars["t"]->pd = x;
  };
  for (int k = 0; k < nops; ++k) {
    int i = (int)s.draw(fs.size());
    int op = (int)s.range(0, 5);
    std::map<std::string, Val> before;
    for (auto &h : top.holders) before[h.first] = h.second.get();
    std::set<std::string> may;
    setT();
    std::ostringstream what;
    switch (op) {
      case 0:
      case 1:
        what << "fill_field of field " << i << " for " << from[i];
        NOTE(s) << what.str() << "\n";
        fs[i]->fill(up, top.holders[from[i]].par);
        fs[i]->model(true);
        inUp.clear();
        inUp.insert(from[i]);
        may = inUp;
        ++fills;
        break;
      case 2: {
        // any number of dependents in one updater
        std::string n = "f" + std::to_string(s.draw(nt));
        NOTE(s) << "second updater also updates " << n << "\n";
        up2.addDependent(top.holders[n].par);
        inUp2.insert(n);
        if (!inUp2.count(from[i])) up2.addDependent(top.holders[from[i]].par), inUp2.insert(from[i]);
        what << "fill_field of field " << i << " with the second updater";
        NOTE(s) << what.str() << "\n";
        fs[i]->fill(up2, pParameter());
        fs[i]->model(true);
        may = inUp2;
        ++fills;
        break;
      }
      case 3: {
        what << "adding field " << i << " to the filler";
        NOTE(s) << what.str() << "\n";
        bool second = s.chance(1, 3);
        (void)second;
        up2.addDependent(top.holders[from[i]].par);
        inUp2.insert(from[i]);
        fs[i]->add(filler, up2);
        inFiller.push_back(i);
        may = inUp2;
        break;
      }
      case 4:
        if (s.chance(1, 4)) {
          NOTE(s) << "clearing the filler\n";
          filler.clear();
          inFiller.clear();
        } else {
          what << "filling all " << inFiller.size() << " fields";
          NOTE(s) << what.str() << "\n";
          filler.fillFields();
          for (int j : inFiller) fs[j]->model(true), ++fills;
          may = inUp2;
        }
        break;
      default: {
        // a filler of its own with all fields at once
        FieldFiller own;
        what << "a new filler with all fields";
        NOTE(s) << what.str() << "\n";
        DependencyUpdater u(dm);
        for (size_t j = 0; j < R; ++j) u.addIndependent(pc[j]);
        u.addIndependent(top.holders["t"].par);
        for (size_t j = 0; j < fs.size(); ++j) {
          u.addDependent(top.holders[from[j]].par);
          fs[j]->add(own, u);
          may.insert(from[j]);
        }
        own.fillFields();
        for (auto &f : fs) f->model(true), ++fills;
      }
    }
    for (auto &f : fs) f->check(what.str());
    for (auto &h : top.holders)
      if (h.second.kind == Spec::RW && !may.count(h.first))
        CHECK(same(h.second.get(), before[h.first]), what.str() << " changed " << h.first);
  }
  if (live && fills) s.nontrivial();
  s.label("rank " + std::to_string(R) + (live ? "" : ", constants only"));
}

}  // namespace

/// fields filled from expressions
PROPERTY(fill_fields) {
  switch (s.range(1, 3)) {
    case 1: fillCase<1>(s); break;
    case 2: fillCase<2>(s); break;
    default: fillCase<3>(s);
  }
}
