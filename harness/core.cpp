// C01-C04, C07, C09, C12, C13: the real core and filter code against executable statements of the properties.
#include "h.h"
#include <algorithm>
#include <list>
#include <map>
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include "oclint/ResultCollector.h"
#include "oclint/RawResults.h"
#include "oclint/UniqueResults.h"
#include "oclint/RulesetFilter.h"
using namespace oclint;
using namespace h;

struct R : RuleBase {
  std::string n; int p;
  R(std::string n, int p) : n(n), p(p) {}
  void apply() override {}
  const std::string name() const override { return n; }
  const std::string category() const override { return "c"; }
  int priority() const override { return p; }
};
static std::vector<R*>& rules() {
  static std::vector<R*> v;
  if (v.empty()) for (int i = 0; i < 9; ++i) v.push_back(new R("rule " + std::string(1, 'a' + i), 1 + i % 3));
  return v;
}
struct M {  // a violation as plain data
  R* r; std::string p; int a, b, c, d; std::string m;
  bool operator==(const M& o) const { return r == o.r && p == o.p && a == o.a && b == o.b && c == o.c && d == o.d && m == o.m; }
};
static bool same(const Violation& v, const M& m) {
  return v.rule == m.r && v.path == m.p && v.startLine == m.a && v.startColumn == m.b && v.endLine == m.c && v.endColumn == m.d && v.message == m.m;
}
static Violation mk(const M& m) { return Violation(m.r, m.p, m.a, m.b, m.c, m.d, m.m); }
static std::string show(const M& m) {
  std::ostringstream o;
  o << "[" << (m.r ? m.r->n : "-") << " prio " << (m.r ? m.r->p : 0) << " " << quote(m.p) << " " << m.a << ":" << m.b << "-" << m.c << ":" << m.d << " " << quote(m.m) << "]";
  return o.str();
}
static std::string show(const Violation& v) {
  return show(M{(R*)v.rule, v.path, v.startLine, v.startColumn, v.endLine, v.endColumn, v.message});
}
template <typename C> static std::string showAll(const C& c) { std::string s; for (auto& x : c) s += show(x) + "\n"; return s.empty() ? "(none)" : s; }
static int num(Rng& r) {
  static const std::vector<int> big{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 20, 32, 64, 100, 255, 256, 1000, 65535, 65536, 1 << 20, -1, 2147483647};
  return r.chance(80) ? r.below(4) : r.pick(big);
}
static std::string text(Rng& r) {
  static const std::vector<std::string> t{"", "a", "b", "/x/a.m", "/x/b.m", "/x/A.m", "/x/a.mm", "m", "message", "message ", std::string("a\0b", 3), std::string("a\0c", 3), "é", "a\nb"};
  return r.pick(t);
}
static M gen(Rng& r, const std::vector<M>& old) {
  if (!old.empty() && r.chance(35)) return r.pick(old);
  M m{r.pick(rules()), text(r), num(r), num(r), num(r), num(r), text(r)};
  if (!old.empty() && r.chance(60)) {  // differs from an earlier one in exactly one field
    M n = r.pick(old);
    switch (r.below(9)) {
      case 0: n.r = m.r; break;
      case 1: n.p = m.p; break;
      case 2: n.a = m.a; break;
      case 3: n.b = m.b; break;
      case 4: n.c = m.c; break;
      case 5: n.d = m.d; break;
      case 6: n.m = m.m; break;
      case 7: std::swap(n.a, n.c); break;
      default: std::swap(n.p, n.m); break;
    }
    return n;
  }
  return m;
}
static std::vector<M> genList(Rng& r, std::vector<M>& pool) {
  std::vector<M> v;
  int n = r.chance(15) ? 0 : r.chance(8) ? r.below(200) : r.below(6);
  for (int i = 0; i < n; ++i) { M m = gen(r, pool); v.push_back(m); if (pool.size() < 60) pool.push_back(m); }
  return v;
}
static std::vector<M> distinct(const std::vector<M>& v) {
  std::vector<M> d;
  for (auto& m : v) if (std::find(d.begin(), d.end(), m) == d.end()) d.push_back(m);
  return d;
}
struct Coll : ResultCollector { Coll() {} ~Coll() {} };
struct World {
  Coll* c = nullptr;
  std::vector<std::vector<M>> sets;
  std::vector<M> err, warn, bug, all;
  std::string desc;
};
static World* world(Rng& r) {
  World* w = new World();
  w->c = new Coll();
  std::vector<M> pool;
  int n = r.chance(10) ? 0 : r.chance(5) ? r.below(30) : r.below(5);
  for (int i = 0; i < n; ++i) {
    w->sets.push_back(genList(r, pool));
    ViolationSet* s = new ViolationSet();
    for (auto& m : w->sets.back()) { s->addViolation(mk(m)); w->all.push_back(m); }
    w->c->add(s);
    w->desc += "unit " + str(i) + ":\n" + showAll(w->sets.back());
  }
  w->err = genList(r, pool); for (auto& m : w->err) w->c->addError(mk(m));
  w->warn = genList(r, pool); for (auto& m : w->warn) w->c->addWarning(mk(m));
  w->bug = genList(r, pool); for (auto& m : w->bug) w->c->addCheckerBug(mk(m));
  w->desc += "errors:\n" + showAll(w->err) + "warnings:\n" + showAll(w->warn) + "checker findings:\n" + showAll(w->bug);
  return w;
}
template <typename V> static void cmp(const std::string& what, World* w, const std::vector<M>& want, const V& got) {
  bool ok = want.size() == got.size();
  for (size_t i = 0; ok && i < want.size(); ++i) ok = same(got[i], want[i]);
  if (!ok) fail(what, w->desc, showAll(want), showAll(got));
}
static void cmpn(const std::string& what, World* w, long want, long got) { if (want != got) fail(what, w->desc, str(want), str(got)); }

static void lists(Rng& r, Results& res, World* w, bool uniq) {
  auto f = [&](const std::vector<M>& v) { return uniq ? distinct(v) : v; };
  std::vector<int> order{0, 1, 2, 3};
  for (int i = 3; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  for (int rep = 0; rep < 2; ++rep)
    for (int k : order) {
      if (k == 0) cmp("allViolations", w, f(w->all), res.allViolations());
      if (k == 1) cmp("allErrors", w, f(w->err), res.allErrors());
      if (k == 2) cmp("allWarnings", w, f(w->warn), res.allWarnings());
      if (k == 3) cmp("allCheckerBugs", w, f(w->bug), res.allCheckerBugs());
    }
}
static void summary(Rng& r, Results& res, World* w, bool uniq) {
  auto f = [&](const std::vector<M>& v) { return uniq ? distinct(v) : v; };
  auto all = f(w->all);
  for (int p = -1; p <= 5; ++p) {
    long k = 0;
    for (auto& m : all) k += m.r->p == p;
    cmpn("numberOfViolationsWithPriority(" + str(p) + ")", w, k, res.numberOfViolationsWithPriority(p));
  }
  cmpn("numberOfViolations", w, all.size(), res.numberOfViolations());
  cmpn("numberOfFiles", w, w->sets.size(), res.numberOfFiles());
  std::set<std::string> files;
  for (auto& s : w->sets) if (!s.empty()) files.insert(s[0].p);
  cmpn("numberOfFilesWithViolations", w, files.size(), res.numberOfFilesWithViolations());
  cmpn("numberOfErrors", w, f(w->err).size(), res.numberOfErrors());
  cmpn("numberOfWarnings", w, f(w->warn).size(), res.numberOfWarnings());
  cmpn("numberOfCheckerBugs", w, f(w->bug).size(), res.numberOfCheckerBugs());
  cmpn("hasErrors", w, !w->err.empty(), res.hasErrors());
  cmpn("hasWarnings", w, !w->warn.empty(), res.hasWarnings());
  cmpn("hasCheckerBugs", w, !w->bug.empty(), res.hasCheckerBugs());
}
static void note(World* w) {
  if (w->all.size() > 1) ctx().nontrivial++;
  if (w->all.size() > 1 && w->all.size() < 6) sample(w->desc);
  // the worlds are small; they live until the process ends
}
static void C01(Rng& r) {
  World* w = world(r);
  UniqueResults u(*w->c);
  if (r.chance(50)) lists(r, u, w, true);
  summary(r, u, w, true);
  lists(r, u, w, true);
  note(w);
  delete w;
}
static void C02(Rng& r) {
  World* w = world(r);
  RawResults u(*w->c);
  lists(r, u, w, false);
  summary(r, u, w, false);
  note(w);
  delete w;
}
static void C03(Rng& r) {
  World* w = world(r);
  RawResults a(*w->c);
  UniqueResults b(*w->c);
  // for one unit per file the number of files with violations is read off the sets themselves
  summary(r, a, w, false);
  summary(r, b, w, true);
  note(w);
  delete w;
}
static void C04(Rng& r) {
  std::vector<ViolationSet*> sets;
  std::vector<RuleCarrier*> car;
  std::vector<std::vector<M>> model;
  Coll c;
  std::vector<M> e, wn, b, pool;
  World w;
  int n = 1 + r.below(3);
  for (int i = 0; i < n; ++i) { sets.push_back(new ViolationSet()); car.push_back(new RuleCarrier((clang::ASTContext*)nullptr, sets[i])); model.push_back({}); }
  int steps = r.chance(5) ? 300 : r.below(20);
  for (int i = 0; i < steps; ++i) {
    M m = gen(r, pool);
    if (pool.size() < 40) pool.push_back(m);
    int k = r.below(n + 1);
    if (k < n) {
      if (r.chance(80)) {
        w.desc += "carrier " + str(k) + " " + show(m) + "\n";
        if (m.m.empty() && r.chance(50)) car[k]->addViolation(m.p, m.a, m.b, m.c, m.d, m.r);
        else car[k]->addViolation(m.p, m.a, m.b, m.c, m.d, m.r, m.m);
        if (!m.p.empty()) model[k].push_back(m);
      } else { w.desc += "set " + str(k) + " " + show(m) + "\n"; sets[k]->addViolation(mk(m)); model[k].push_back(m); }
    } else {
      int q = r.below(3);
      w.desc += "collector list " + str(q) + " " + show(m) + "\n";
      if (q == 0) { c.addError(mk(m)); e.push_back(m); }
      if (q == 1) { c.addWarning(mk(m)); wn.push_back(m); }
      if (q == 2) { c.addCheckerBug(mk(m)); b.push_back(m); }
    }
    if (steps < 30 || i == steps - 1) {
      for (int j = 0; j < n; ++j) { cmp("violation set " + str(j), &w, model[j], sets[j]->getViolations()); cmpn("numberOfViolations", &w, model[j].size(), sets[j]->numberOfViolations()); }
      cmp("compiler errors", &w, e, c.getCompilerErrorSet()->getViolations());
      cmp("compiler warnings", &w, wn, c.getCompilerWarningSet()->getViolations());
      cmp("checker findings", &w, b, c.getClangStaticCheckerBugSet()->getViolations());
    }
  }
  for (int i = 0; i < n; ++i) {
    c.add(sets[i]);
    if ((int)c.getCollection().size() != i + 1 || c.getCollection()[i] != sets[i] || c.getCollection()[0] != sets[0]) fail("collector order", w.desc, str(i + 1), str(c.getCollection().size()));
  }
  if (steps > 1) ctx().nontrivial++;
  if (steps > 1 && steps < 6) sample(w.desc);
  for (auto s : sets) delete s;
  for (auto s : car) delete s;
}
static void C09(Rng& r) {
  RuleConfiguration::removeAll();
  std::map<std::string, std::string> m;
  static const std::vector<std::string> keys{"", "A", "a", "B", "AB", "A B", "LONG_LINE", "LONG_METHOD", " A", "A ", "NCSS_METHOD", std::string("A\0", 2)};
  static const std::vector<std::string> vals{"", "0", "1", "10", "-3", "+4", "007", " 8", "9x", "x9", "3.5", "-0.25", "1e3", "2147483647", "true", "hello world", "0x10", "12 13"};
  std::string log;
  int n = r.below(12);
  for (int i = 0; i < n; ++i) {
    if (r.chance(7)) { RuleConfiguration::removeAll(); m.clear(); log += "removeAll\n"; }
    else if (r.chance(70)) {
      std::string k = r.pick(keys), v = r.pick(vals);
      RuleConfiguration::addConfiguration(k, v); m[k] = v; log += quote(k) + " := " + quote(v) + "\n";
    }
    for (auto& k : keys) {
      if (r.chance(50)) continue;
      bool has = m.count(k);
      std::string l = log + "query " + quote(k);
      if (RuleConfiguration::hasKey(k) != has) fail("hasKey", l, str(has), str(!has));
      std::string d = r.pick(vals), s = RuleConfiguration::stringForKey(k, d);
      if (s != (has ? m[k] : d)) fail("stringForKey", l, has ? m[k] : d, s);
      if (RuleConfiguration::stringForKey(k) != (has ? m[k] : "")) fail("stringForKey without default", l, has ? m[k] : "", RuleConfiguration::stringForKey(k));
      int di = num(r), gi = RuleConfiguration::intForKey(k, di), wi = has ? atoi(m[k].c_str()) : di;
      if (gi != wi) fail("intForKey", l, str(wi), str(gi));
      double dd = num(r) / 4.0, gd = RuleConfiguration::doubleForKey(k, dd), wd = has ? atof(m[k].c_str()) : dd;
      if (gd != wd) fail("doubleForKey", l, str(wd), str(gd));
      if (has && RuleConfiguration::valueForKey(k) != m[k]) fail("valueForKey", l, m[k], RuleConfiguration::valueForKey(k));
    }
  }
  if (m.size() > 1) { ctx().nontrivial++; sample(log); }
}
static std::string randomName(Rng& r) {
  static const std::string chars = "abcxyzABCXYZ   --__0189.é/";
  std::string s;
  int n = r.below(14);
  for (int i = 0; i < n; ++i) s += chars[r.below(chars.size())];
  static const std::vector<std::string> words{"long line", "short variable name", "useless parentheses", "bitwise operator in conditional", "obfuscated  if", "avoid private static members", "use number literal", "a", " ", "ivar assignment outside accessors or init", "if-else  branch"};
  return r.chance(30) ? r.pick(words) : s;
}
static void C12(Rng& r) {
  std::string n = randomName(r), want;
  R a(n, 1), b(n, 2);
  bool up = true, first = true;
  auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
  for (char c : n) {
    if (letter(c)) { want += (up && c >= 'a' && c <= 'z') ? char(c - 32) : c; up = false; }
    else up = true;
    first = false;
  }
  (void)first;
  std::string got = a.identifier();
  if (got != want) fail("identifier", quote(n), want, got);
  if (a.identifier() != b.identifier() || a.identifier() != got) fail("identifier is a function of the name", quote(n), got, a.identifier());
  if (a.attributeName() != n) fail("attributeName", quote(n), n, a.attributeName());
  if (n.size() > 2) { ctx().nontrivial++; sample(quote(n) + " -> " + got); }
}
static std::vector<RuleBase*> registered;
static void C13(Rng& r) {
  int n = r.below(3);
  std::string log = "already registered: " + str(registered.size());
  if (registered.size() > 400) n = 0;
  for (int i = 0; i < n; ++i) {
    RuleBase* b = registered.empty() || r.chance(80) ? new R(randomName(r), 1) : r.pick(registered);
    RuleSet s(b);
    registered.push_back(b);
    log += "\nregister";
  }
  if (RuleSet::numberOfRules() != (int)registered.size()) fail("numberOfRules", log, str(registered.size()), str(RuleSet::numberOfRules()));
  for (int i = 0; i < (int)registered.size(); ++i)
    if (RuleSet::getRuleAtIndex(i) != registered[i]) fail("getRuleAtIndex(" + str(i) + ")", log, "rule registered there", "another");
  for (int i : {(int)registered.size(), (int)registered.size() + 1, (int)registered.size() + 1000, 2147483647, -1, -2, -2147483647}) {
    RuleBase* got = nullptr;
    try { got = RuleSet::getRuleAtIndex(i); }
    catch (...) { fail("getRuleAtIndex(" + str(i) + ")", log, "no rule", "exception"); }
    if (got) fail("getRuleAtIndex(" + str(i) + ")", log, "no rule", "a rule");
  }
  if (registered.size() > 1) ctx().nontrivial++;
  sample(log);
}
static void C07(Rng& r) {
  static bool init = false;
  static std::vector<std::pair<std::string, RuleBase*>> reg;
  if (!init) {
    init = true;
    for (const char* n : {"alpha", "beta", "gamma", "alpha", "long line", "long method", "delta"}) {
      RuleBase* b = new R(n, 1); RuleSet s(b); reg.push_back({b->identifier(), b});
    }
  }
  RulesetFilter f;
  std::set<std::string> en, dis;
  std::string log;
  static const std::vector<std::string> names{"Alpha", "Beta", "Gamma", "LongLine", "LongMethod", "Delta", "Nope", "alpha", ""};
  int n = r.below(7);
  for (int i = 0; i < n; ++i) {
    std::string x = r.pick(names);
    if (r.chance(50)) { f.enableRule(x); en.insert(x); dis.erase(x); log += "enable " + x + "\n"; }
    else { f.disableRule(x); dis.insert(x); en.erase(x); log += "disable " + x + "\n"; }
  }
  std::vector<std::string> want; std::vector<RuleBase*> wr;
  for (auto& p : reg) if ((en.empty() || en.count(p.first)) && !dis.count(p.first)) { want.push_back(p.first); wr.push_back(p.second); }
  auto names1 = f.filteredRuleNames(); auto rs = f.filteredRules();
  auto j = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; };
  if (names1 != want) fail("filteredRuleNames", log, j(want), j(names1));
  if (rs != wr) fail("filteredRules", log, j(want), str(rs.size()) + " rules");
  if (n > 1) { ctx().nontrivial++; sample(log); }
}
int main(int argc, char** argv) {
  return h::run(argc, argv, {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C07", C07}, {"C09", C09}, {"C12", C12}, {"C13", C13}});
}
