// Replay harness for the parts of the rule framework: traversal (F01), suppression (F02), annotations (F03),
// locations (F04) and source lines (F05). Probe rules run on generated programs.
#include "h.h"
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <clang/AST/AST.h>
#include <clang/AST/Attr.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include <clang/Frontend/ASTUnit.h>
#include <clang/Tooling/Tooling.h>
#include "oclint/AbstractASTMatcherRule.h"
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/AbstractSourceCodeReaderRule.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include "oclint/helper/AttributeHelper.h"
using namespace clang;
typedef std::string T;
bool attributeHasAnnotation(const std::string& annotation, const std::string& attributeName, std::string* comment);
bool declHasAttribute(const clang::Decl* decl, const std::string& attributeName, std::string* comment);
static T one(h::Rng& r, std::initializer_list<const char*> l) { auto i = l.begin(); std::advance(i, r.below((int)l.size())); return *i; }
struct Unit { int lang = 0; T code; std::vector<std::pair<T, T>> files; std::vector<T> args; T text() const { T s; for (auto& f : files) s += "---- " + f.first + "\n" + f.second; return s + "---- main\n" + code; } };
static const char* suffix[] = {".c", ".cpp", ".m", ".mm", ".cu"};
static std::unique_ptr<ASTUnit> parse(const Unit& u, bool wrong = false, const T& stem = "input") {
  T name = stem + suffix[u.lang];
  { std::ofstream f("current"); f << name << "\n" << u.text(); }
  std::vector<T> args = {"-w", "-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions", "-ferror-limit=3", "-fblocks", "-fobjc-runtime=macosx", "-Wno-everything", "-I."};
  args.push_back(u.lang == 0 || u.lang == 2 ? "-std=gnu99" : "-std=c++17");
  if (u.lang == 4) for (const char* a : {"-nocudainc", "-nocudalib", "--cuda-host-only", "-x", "cuda"}) args.push_back(a);
  for (auto& a : u.args) args.push_back(a);
  struct Quiet : DiagnosticConsumer { T first; void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic& i) override { DiagnosticConsumer::HandleDiagnostic(l, i); if (first.empty() && l >= DiagnosticsEngine::Error) { SmallString<100> b; i.FormatDiagnostic(b); first = b.str().str(); } } } q;
  static std::deque<tooling::FileContentMappings> texts;   // they have to outlive the tree
  texts.push_back({});
  auto& files = texts.back();
  for (auto& f : u.files) files.push_back(f);
  std::unique_ptr<clang::ASTUnit> ast;
  { h::Parsing parsing; ast = tooling::buildASTFromCodeWithArgs(u.code, args, name, "clang-tool", std::make_shared<PCHContainerOperations>(), tooling::getClangStripDependencyFileAdjuster(), files, &q);}
  static long bad = 0, good = 0;
  if (!ast || (!wrong && q.getNumErrors())) {
    bad++;
    if (getenv("SHOW_BAD")) std::cerr << "==== " << q.first << "\n" << u.text() << "\n";
    if (bad > 60 && bad > 3 * good) { std::cerr << "generated code does not compile: " << q.first << "\n" << u.text(); exit(4); }
    return nullptr;
  }
  good++;
  if (getenv("SHOW_STATS")) std::cerr << good << " good " << bad << " bad\n";
  return ast;
}
template <class R> struct Named : R {
  T called = "probe"; unsigned langs = 7, cuda = oclint::CUDA_HOST;
  const T name() const override { return called; }
  int priority() const override { return 2; }
  const T category() const override { return "probes"; }
};
static T join(const std::vector<T>& v) { T s; for (auto& x : v) s += x + " "; return s; }

// ------------------------------------------------------------------------------------------- F01
static bool ours(const T& n) { return n.rfind("m_", 0) == 0 || n.rfind("h_", 0) == 0; }
static bool counted(NamedDecl* d) {
  if (d->isImplicit() || !d->getDeclName().isIdentifier() || !ours(d->getName().str())) return false;
  if (auto* f = dyn_cast<FunctionDecl>(d)) return !f->getDescribedFunctionTemplate();
  if (auto* c = dyn_cast<CXXRecordDecl>(d)) return !c->getDescribedClassTemplate();
  if (auto* v = dyn_cast<VarDecl>(d)) return !v->getDescribedVarTemplate();
  return true;
}
struct Seer : Named<oclint::AbstractASTVisitorRule<Seer>> {
  std::vector<T> seen;
  unsigned supportedLanguages() const override { return langs; }
  unsigned supportedCUDAFunctionAttrs() const override { return cuda; }
  void setUp() override { seen.push_back("setUp"); }
  void tearDown() override { seen.push_back("tearDown"); }
  bool VisitNamedDecl(NamedDecl* d) { if (counted(d)) seen.push_back(d->getName().str()); return true; }
  bool VisitIntegerLiteral(IntegerLiteral* l) { if (l->getValue().getZExtValue() >= 1000) seen.push_back("#" + h::str(l->getValue().getZExtValue())); return true; }
};
struct Matcher : Named<oclint::AbstractASTMatcherRule> {
  std::vector<T> seen;
  unsigned supportedLanguages() const override { return langs; }
  unsigned supportedCUDAFunctionAttrs() const override { return cuda; }
  void setUpMatcher() override {
    seen.push_back("setUp");
    addMatcher(ast_matchers::namedDecl().bind("d"));
    addMatcher(ast_matchers::integerLiteral().bind("l"));
  }
  void callback(const ast_matchers::MatchFinder::MatchResult& m) override {
    if (auto* d = m.Nodes.getNodeAs<NamedDecl>("d")) if (counted(const_cast<NamedDecl*>(d))) seen.push_back(d->getName().str());
    if (auto* l = m.Nodes.getNodeAs<IntegerLiteral>("l")) if (l->getValue().getZExtValue() >= 1000) seen.push_back("#" + h::str(l->getValue().getZExtValue()));
  }
  void tearDown() override { oclint::AbstractASTMatcherRule::tearDown(); seen.push_back("tearDown"); }
};
static void f01(h::Rng& r) {
  Unit u;
  u.lang = r.below(10) == 0 ? 4 : r.below(4);
  bool cpp = u.lang == 1 || u.lang >= 3, objc = u.lang == 2 || u.lang == 3, cuda = u.lang == 4;
  Seer s; Matcher m;
  s.langs = m.langs = r.chance(50) ? 7 : r.below(8);
  s.cuda = m.cuda = cuda ? r.below(8) : r.chance(85) ? oclint::CUDA_HOST : r.below(8);
  int uid = 0;
  std::vector<T> want;
  T body[3] = {"", "", ""};   // main, a.h, b.h
  body[1] = "#define MAKE(n, v) int n = v;\n#define OPEN int\n";
  body[2] = "#define BOTH(n, v) int n = v; int n##_ = v;\n";
  T cls = "";
  auto item = [&](int f) -> T {
    T n = (f == 0 ? "m_" : "h_") + h::str(++uid), v = h::str(1000 + uid);
    auto see = [&](std::initializer_list<T> l, unsigned attr = 7) { if (f == 0 && (!cuda || attr == 7 || (s.cuda & attr))) for (auto& x : l) want.push_back(x); };
    switch (r.below(objc ? 20 : cpp ? 16 : 10)) {
      case 0: see({n, "#" + v}); return "int " + n + " = " + v + ";\n";
      case 1: see({n, "#" + v}, oclint::CUDA_HOST); return "int " + n + "(int a) { return a + " + v + "; }\n";
      case 2: see({n}, oclint::CUDA_HOST); return "void " + n + "(int);\n";
      case 3: see({n}); return "typedef int " + n + ";\n";
      case 4: see({n}); return "struct " + n + " { int field; };\n";
      case 5: see({n, "#" + v}); return "enum " + n + " { e" + n + " = " + v + " };\n";
      case 6: see({n}); return "extern int " + n + ";\n";
      case 7: if (f == 1) return ""; see({n, "#" + v}); return "MAKE(" + n + ", " + v + ")\n";
      case 8: if (f == 1) return ""; see({n, "#" + v}); return "OPEN " + n + " = " + v + ";\n";
      case 9: if (cuda) { bool host = r.chance(40); see({n, "#" + v}, host ? oclint::CUDA_HOST : oclint::CUDA_GLOBAL); return T(host ? "__attribute__((host))" : "__attribute__((global))") + " void " + n + "(int *a) { *a = " + v + "; }\n"; }
        see({n, n + "x", "#" + v}); return "struct " + n + " { int f; } " + n + "x = { " + v + " };\n";
      case 10: see({n, n + "i", "#" + v}, 7); return "namespace " + n + " { int " + n + "i = " + v + "; }\n";
      case 11: see({n, "#" + v}); return "template <class A> A " + n + "(A a) { return a + " + v + "; }\n";
      case 12: see({n, "#" + v}); return "template <class A> struct " + n + " { int get() { return " + v + "; } };\n";
      case 13: see({n + "a", n + "b", "#" + v}); return "extern \"C\" { void " + n + "a(int); int " + n + "b = " + v + "; }\n";
      case 14: see({n, n + "f", "#" + v}); return "class " + n + " { public: int " + n + "f(); }; int " + n + "::" + n + "f() { return " + v + "; }\n" + (see({}), "");
      case 15: see({n}); return "using " + n + " = int;\n";
      case 16: see({n}); cls = n; return "__attribute__((objc_root_class)) @interface " + n + "\n- (int)one;\n@end\n";
      case 17: { see({n, "#" + v}); return "@interface h_fwd" + T() + h::str(uid) + "\n"; }
      case 18: see({n}); return "@protocol " + n + "\n- (int)two;\n@end\n";
      default: see({n}); return "@class " + n + ";\n";
    }
  };
  auto add = [&](int f) {
    // the three forms below need more than one declaration in a fixed order
    size_t before = want.size();
    int id = uid;
    T t = item(f);
    T n = (f == 0 ? "m_" : "h_") + h::str(id + 1), v = "#" + h::str(1000 + id + 1);
    if (t.rfind("class ", 0) == 0) { want.resize(before); if (f == 0 && (!cuda || true)) { want.push_back(n); want.push_back(n + "f"); if (!cuda || (s.cuda & oclint::CUDA_HOST)) { want.push_back(n + "f"); want.push_back(v); } } }
    if (t.rfind("@interface h_fwd", 0) == 0) {
      want.resize(before);
      if (f == 0) { want.push_back(n); want.push_back(n); want.push_back(v); }
      t = "__attribute__((objc_root_class)) @interface " + n + "\n@end\n@implementation " + n + "\n- (int)three { return " + v.substr(1) + "; }\n@end\n";
    }
    body[f] += t;
  };
  int n = r.range(0, 3);
  for (int i = 0; i < n; i++) add(1);
  for (int i = r.range(0, 2); i > 0; i--) { body[2] += i == 1 && r.chance(50) ? "#pragma once\n" : ""; add(2); }
  body[0] = "#include \"a.h\"\n" + body[0];
  T main = "#include \"a.h\"\n";
  n = r.range(0, 7);
  body[0] = "";
  bool included = false;
  for (int i = 0; i < n; i++) { if (!included && r.chance(30)) { body[0] += "#include \"b.h\"\n"; included = true; } add(0); }
  u.code = main + body[0];
  u.files = {{"a.h", "#pragma once\n" + body[1]}, {"b.h", "#pragma once\n#include \"a.h\"\n" + body[2]}};
  auto ast = parse(u);
  if (!ast) return;
  oclint::ViolationSet vs;
  oclint::RuleCarrier carrier(&ast->getASTContext(), &vs);
  bool runs = cuda || ((s.langs & (objc ? oclint::LANG_OBJC : cpp ? oclint::LANG_CXX : oclint::LANG_C)) && (s.cuda & oclint::CUDA_HOST));
  std::vector<T> expect;
  if (runs) { expect.push_back("setUp"); expect.insert(expect.end(), want.begin(), want.end()); expect.push_back("tearDown"); }
  T what = "a rule for languages " + h::str(s.langs) + " and CUDA functions " + h::str(s.cuda) + " on a " + suffix[u.lang] + " file";
  s.takeoff(&carrier);
  if (s.seen != expect) h::fail(what + " (visitor)", u.text(), join(expect), join(s.seen));
  m.takeoff(&carrier);
  if (m.seen != expect) h::fail(what + " (matcher)", u.text(), join(expect), join(m.seen));
  if (expect.size() > 2) { h::ctx().nontrivial++; h::sample(u.code.substr(0, 150) + " -> " + join(expect)); }
}

// ------------------------------------------------------------------------------------------- F05
struct Liner : Named<oclint::AbstractSourceCodeReaderRule> {
  std::vector<std::pair<int, T>> seen;
  bool report = false;
  void eachLine(int n, T line) override { seen.push_back({n, line}); if (report) AbstractSourceCodeReaderRule::addViolation(n, 1, n, (int)line.size(), this, "line"); }
};
static T show(const std::vector<std::pair<int, T>>& v) { T s; for (auto& x : v) s += h::str(x.first) + ":" + h::quote(x.second) + " "; return s; }
static void f05(h::Rng& r) {
  Unit u;
  u.lang = r.below(4);
  std::vector<std::pair<int, T>> want;
  int limit = r.chance(40) ? 100 : r.range(0, 30);
  int lines = r.range(0, 6);
  T set = "unset";
  oclint::RuleConfiguration::removeAll();
  if (limit != 100 || r.chance(30)) { set = h::str(limit); oclint::RuleConfiguration::addConfiguration("LONG_LINE", set); }
  for (int i = 0; i < lines; i++) {
    T line;
    int n = r.chance(20) ? 0 : r.chance(50) ? limit + r.range(-2, 2) : r.range(0, 40);
    switch (r.below(4)) {
      case 0: line = "int v" + h::str(i) + ";"; while ((int)line.size() < n) line += ' '; break;
      case 1: line = "//"; while ((int)line.size() < n) line += (char)r.range(33, 126); if (line.find("!OCLINT") != T::npos || line.back() == '\\' || line.back() == '/') line += "."; break;
      case 2: while ((int)line.size() < n) line += one(r, {" ", "\t", "\xc3\xa4", "\r", "\f", ";"}); break;
      default: line = "//"; while ((int)line.size() < n) line += one(r, {" ", "\t", "x", "\xe2\x82\xac"}); break;
    }
    if (r.chance(25)) line += "\r";
    want.push_back({i + 1, line});
  }
  bool ended = r.chance(60);
  if (!ended && !want.empty() && want.back().second.empty()) want.pop_back();
  if (!ended && !want.empty() && want.back().second.empty()) ended = true;
  for (size_t i = 0; i < want.size(); i++) u.code += want[i].second + (i + 1 < want.size() || ended ? "\n" : "");
  auto ast = parse(u, true);
  if (!ast) return;
  oclint::ViolationSet vs;
  oclint::RuleCarrier carrier(&ast->getASTContext(), &vs);
  Liner l;
  l.takeoff(&carrier);
  if (l.seen != want) h::fail("the lines given to a source-line rule", h::quote(u.code), show(want), show(l.seen));
  T expect, got;
  for (auto& w : want) if ((int)w.second.size() > limit) expect += T("input") + suffix[u.lang] + ":" + h::str(w.first) + ":1-" + h::str(w.first) + ":" + h::str(w.second.size()) + " Line with " + h::str(w.second.size()) + " characters exceeds limit of " + h::str(limit) + "; ";
  for (int i = 0; i < oclint::RuleSet::numberOfRules(); i++) if (oclint::RuleSet::getRuleAtIndex(i)->name() == "long line") oclint::RuleSet::getRuleAtIndex(i)->takeoff(&carrier);
  for (auto& v : vs.getViolations()) got += v.path + ":" + h::str(v.startLine) + ":" + h::str(v.startColumn) + "-" + h::str(v.endLine) + ":" + h::str(v.endColumn) + " " + v.message + "; ";
  if (expect != got) h::fail("long lines with LONG_LINE " + set, h::quote(u.code), expect, got);
  if (want.size() > 1 && expect.size()) { h::ctx().nontrivial++; h::sample(h::quote(u.code.substr(0, 120)) + " -> " + expect); }
}

// ------------------------------------------------------------------------------------------- F03
static bool begins(const T& t, const T& s) { return t.compare(0, s.size(), s) == 0; }
static bool carries(const std::vector<T>& texts, const T& wanted, T* note) {
  bool bare = true;
  for (char c : wanted) if (c == '[') bare = false;
  for (auto& t : texts) {
    if (bare ? t != wanted : !begins(t, wanted)) continue;
    if (!bare && note && !t.empty() && t[t.size() - 1] == ']')
      for (size_t i = wanted.size(); i < t.size(); i++) if (t[i] == '[') { *note = t.substr(i + 1, t.size() - 1 - (i + 1)); break; }
    return true;
  }
  return false;
}
static T piece(h::Rng& r, const std::vector<T>& rules) {
  T rule = r.pick(rules), kind = one(r, {"suppress", "enforce", "suppress ", "sup"});
  switch (r.below(8)) {
    case 0: return "oclint:" + kind;
    case 1: return "oclint:" + kind + "[" + rule + "]";
    case 2: return "oclint:" + kind + "[" + rule + "][" + one(r, {"", "why", "a [b] c", "]", "[", "x]y"}) + "]";
    case 3: return "oclint:" + kind + "[" + rule + "]" + one(r, {" ", "[why", "why]", "]", "[a][b]", " [c]"});
    case 4: return "oclint:" + kind + "[" + rule.substr(0, rule.size() - 1) + one(r, {"]", "", "x]"});
    case 5: return one(r, {" oclint:", "oclint::", "OCLINT:", "oclint"}) + kind + "[" + rule + "]";
    case 6: return one(r, {"", "other", "oclint", "oclint:", "suppress", "["});
    default: return "oclint:" + kind + one(r, {"[]", "[", " [x]", "x"});
  }
}
struct Decls : RecursiveASTVisitor<Decls> { std::vector<Decl*> all; bool VisitDecl(Decl* d) { all.push_back(d); return true; } bool shouldVisitImplicitCode() const { return true; } };
static std::vector<T> textsOf(const Decl* d) {
  std::vector<T> t;
  if (d->hasAttrs()) for (auto* a : d->getAttrs()) if (a->getKind() == attr::Annotate) t.push_back(static_cast<AnnotateAttr*>(a)->getAnnotation().str());
  return t;
}
struct Plain : Named<oclint::RuleBase> { void apply() override {} };
static T escaped(const T& t) { T s; for (char c : t) { if (c == '"' || c == '\\') s += '\\'; s += c; } return s; }
static bool acts(ASTContext& c, const Decl* d, const T& wanted, int depth = 0) {
  auto texts = textsOf(d);
  if (carries(texts, wanted, nullptr)) return true;
  auto* m = dyn_cast<ObjCMethodDecl>(d);
  if (!m) return false;
  if (m->isPropertyAccessor()) if (auto* p = m->findPropertyDecl()) if (carries(textsOf(p), wanted, nullptr)) return true;
  if (isa<ObjCProtocolDecl>(m->getDeclContext()) || isa<ObjCCategoryDecl>(m->getDeclContext())) return false;
  const ObjCInterfaceDecl* i = m->getClassInterface();
  if (!i || depth > 2) return false;
  for (Decl* k : c.getTranslationUnitDecl()->decls())
    if (auto* cat = dyn_cast<ObjCCategoryDecl>(k))
      if (cat->getClassInterface() && cat->getClassInterface()->getCanonicalDecl() == i->getCanonicalDecl())
        for (auto* o : cat->methods()) if (o->getSelector() == m->getSelector() && o->isInstanceMethod() == m->isInstanceMethod() && acts(c, o, wanted, depth + 1)) return true;
  return false;
}
static void f03(h::Rng& r) {
  static const std::vector<T> rules = {"long line", "dead code", "long", "a[b]", "x"};
  for (int i = 0; i < 300; i++) {
    T text = piece(r, rules), wanted = piece(r, rules), note = "before", expect = "before";
    if (r.chance(40)) wanted = text.substr(0, r.below(text.size() + 1));
    bool with = r.chance(70);
    bool e = carries({text}, wanted, &expect), g = attributeHasAnnotation(text, wanted, with ? &note : nullptr);
    if (e != g || (with && note != expect)) h::fail("attributeHasAnnotation" + T(with ? " with" : " without") + " a comment", "annotation " + h::quote(text) + "\nwanted " + h::quote(wanted), (e ? "match, comment " : "no match, comment ") + h::quote(expect), (g ? "match, comment " : "no match, comment ") + h::quote(note));
    if (e && expect != "before") { h::ctx().nontrivial++; h::sample(h::quote(text) + " carries " + h::quote(wanted) + " with comment " + h::quote(expect)); }
  }
  Unit u;
  u.lang = r.below(4);
  auto marks = [&](int most) { T s; for (int n = r.range(0, most); n > 0; n--) s += r.chance(15) ? T(" __attribute__((unused))") : " __attribute__((annotate(\"" + escaped(piece(r, rules)) + "\")))"; return s; };
  u.code = "int v" + marks(4) + " = 1;\nint f(int a" + marks(2) + ")" + marks(3) + ";\nint f(int a) { int b" + marks(2) + " = a; return b; }\nstruct" + marks(3) + " S { int m" + marks(2) + "; };\n";
  if (u.lang >= 2) {
    T method[4] = {"- (int)one", "- (int)two:(int)a", "+ (int)one", "- (int)prop"};
    auto list = [&](int pct) { T s; for (auto& x : method) if (r.chance(pct)) s += x + marks(2) + ";\n"; return s; };
    u.code += "@protocol P\n" + list(70) + (r.chance(40) ? "@property int pp" + marks(2) + ";\n" : "") + "@end\n";
    u.code += "__attribute__((objc_root_class)) @interface A\n" + list(60) + (r.chance(60) ? "@property int prop" + marks(2) + ";\n" : "") + "@end\n";
    for (int k = r.range(0, 2); k > 0; k--) u.code += "@interface A (K" + h::str(k) + ")\n" + list(50) + (r.chance(30) ? "@property int other" + h::str(k) + marks(2) + ";\n" : "") + "@end\n";
    u.code += "__attribute__((objc_root_class)) @interface B\n" + list(40) + "@end\n@interface B (K)\n" + list(40) + "@end\n";
    T impl;
    for (auto& x : method) if (r.chance(60) && x != "- (int)prop") impl += x + " { return 1; }\n";
    u.code += "@implementation A\n" + impl + "@end\n";
  }
  auto ast = parse(u);
  if (!ast) return;
  ASTContext& c = ast->getASTContext();
  Decls all;
  all.TraverseDecl(c.getTranslationUnitDecl());
  Plain rule;
  for (Decl* d : all.all) {
    auto texts = textsOf(d);
    for (int k = 0; k < 4; k++) {
      T wanted = r.chance(60) && !texts.empty() ? r.pick(texts) : piece(r, rules), note = "before", expect = "before", kind = one(r, {"suppress", "enforce"});
      if (r.chance(30)) wanted = wanted.substr(0, r.below(wanted.size() + 1));
      bool e = carries(texts, wanted, &expect), g = declHasAttribute(d, wanted, &note);
      T at = u.text() + "\ndeclaration on line " + h::str(c.getSourceManager().getPresumedLineNumber(d->getBeginLoc())) + ", wanted " + h::quote(wanted);
      if (e != g || (e && note != expect)) h::fail("declHasAttribute", at, (e ? "match, comment " : "no match, comment ") + h::quote(expect), (g ? "match, comment " : "no match, comment ") + h::quote(note));
      rule.called = r.pick(rules);
      e = carries(texts, "oclint:" + kind, nullptr); g = declHasOCLintAttribute(d, kind);
      if (e != g) h::fail("declHasOCLintAttribute " + kind, at, e ? "yes" : "no", g ? "yes" : "no");
      e = acts(c, d, "oclint:" + kind + "[" + rule.attributeName() + "]"); g = declHasActionAttribute(d, kind, rule);
      if (e != g) h::fail("declHasActionAttribute " + kind + " for rule " + rule.called, at, e ? "yes" : "no", g ? "yes" : "no");
    }
  }
}

// ------------------------------------------------------------------------------------------- F04
static std::vector<T> split(const T& s) { std::vector<T> v(1); for (char c : s) if (c == '\n') v.push_back(""); else v.back() += c; return v; }
struct Every : Named<oclint::AbstractASTVisitorRule<Every>> {
  std::vector<std::pair<Stmt*, Decl*>> nodes;
  bool VisitStmt(Stmt* s) { this->addViolation(s, this, "s" + h::str(nodes.size())); nodes.push_back({s, nullptr}); return true; }
  bool VisitDecl(Decl* d) { this->addViolation(d, this, "d" + h::str(nodes.size())); nodes.push_back({nullptr, d}); return true; }
};
// where a location is in the text that was given: file, line and column counted by hand
static bool place(SourceManager& sm, SourceLocation l, const Unit& u, T& file, int& line, int& col) {
  if (l.isInvalid()) return false;
  while (l.isMacroID()) l = sm.isMacroArgExpansion(l) ? sm.getImmediateSpellingLoc(l) : sm.getImmediateExpansionRange(l).getBegin();
  auto d = sm.getDecomposedLoc(l);
  auto e = sm.getFileEntryRefForID(d.first);
  if (!e) return false;
  file = e->getName().str();
  T text = u.code;
  for (auto& f : u.files) if (file.size() >= f.first.size() && file.substr(file.size() - f.first.size()) == f.first) text = f.second;
  line = col = 1;
  for (unsigned i = 0; i < d.second && i < text.size(); i++) { if (text[i] == '\n') { line++; col = 1; } else col++; }
  return true;
}
static void f04(h::Rng& r) {
  Unit u;
  u.lang = r.below(4);
  bool cpp = u.lang == 1 || u.lang == 3;
  int uid = 100;
  auto space = [&]() -> T { return r.chance(20) ? "\n" : r.chance(20) ? "\n\t " : r.chance(15) ? " /* x */ " : r.chance(10) ? " \\\n " : r.chance(10) ? "   " : " "; };
  std::function<T(int)> ex = [&](int d) -> T {
    T n = h::str(++uid);
    switch (r.below(d <= 0 ? 3 : 11)) {
      case 0: case 1: return n;
      case 2: return one(r, {"x", "y"});
      case 3: return ex(d - 1) + space() + one(r, {"+", "*", "<"}) + space() + ex(d - 1);
      case 4: return "(" + space() + ex(d - 1) + space() + ")";
      case 5: return "ID(" + space() + ex(d - 1) + ")";
      case 6: return "TWICE(" + ex(d - 1) + "," + space() + ex(d - 1) + ")";
      case 7: return one(r, {"SEVEN", "NEST", "__LINE__"});
      case 8: return "calc(" + space() + ex(d - 1) + ")";
      case 9: return "DROP(" + ex(d - 1) + ", " + n + ")";
      default: return "HEAD(" + ex(d - 1) + ")";
    }
  };
  std::function<T(int)> st = [&](int d) -> T {
    T n = "v" + h::str(++uid);
    switch (r.below(d <= 0 ? 4 : 11)) {
      case 0: return ex(2) + ";" + space();
      case 1: return "int" + space() + n + space() + "=" + space() + ex(2) + ";" + space();
      case 2: return one(r, {"DO(x)\n", "x++;\n", "SEMI ", ";"});
      case 3: return "return" + space() + ex(1) + ";\n";
      case 4: return "if" + space() + "(" + ex(1) + ")" + space() + st(d - 1) + (r.chance(40) ? "else" + space() + st(d - 1) : "");
      case 5: return "{" + space() + st(d - 1) + st(d - 1) + "}" + space();
      case 6: return "for (int " + n + " = 0; " + n + " < 3;" + space() + n + "++)" + space() + st(d - 1);
      case 7: return "BLOCK(" + st(0) + ")" + space();
      case 8: return "while (" + ex(1) + ") " + st(d - 1);
      case 9: if (cpp) return "auto " + n + " = [&](int a)" + space() + "{ " + st(d - 1) + "return 0; };\n"; return "WRAP\n";
      default: return "WRAP" + space();
    }
  };
  T macros = "#define ID(a) a\n#define TWICE(a, b) ((a) + \\\n  (b))\n#define SEVEN 7\n#define NEST ID(SEVEN)\n#define DROP(a, b) b\n#define DO(v) v = v + 1;\n#define SEMI ;\n#define BLOCK(s) { s }\n#define WRAP BLOCK(x = SEVEN;)\n";
  T body;
  if (r.chance(40)) { int n = r.range(0, 2); for (int i = 0; i < n; i++) body += "\n"; for (int i = r.range(1, 2); i > 0; i--) body += st(1); if (body.back() != '\n') body += "\n"; }
  u.files = {{"macros.h", "\n\n#define HEAD(a) (a - \\\n SEVEN)\nint calc(int);\n" + (r.chance(50) ? macros : T())}, {"body.inc", body}};
  u.code = "#include \"macros.h\"\n";
  if (u.files[0].second.find("TWICE") == T::npos) u.code += macros;
  u.code += one(r, {"int before;\n", "struct S\n{\n  int a; int\n b;\n};\n", "typedef int\n word;\n", "\n\n"});
  int n = r.range(1, 2);
  for (int i = 0; i < n; i++) {
    u.code += "int" + space() + "f" + h::str(i) + "(int x," + space() + "int y)\n{" + space();
    for (int k = r.range(1, 4); k > 0; k--) { u.code += st(2); if (!body.empty() && r.chance(30)) u.code += "\n#include \"body.inc\"\n"; }
    u.code += one(r, {"}\n", "\n}\n", "return 0;\n}\n"});
  }
  for (auto& s : u.code) (void)s;
  auto ast = parse(u);
  if (!ast) return;
  ASTContext& c = ast->getASTContext();
  SourceManager& sm = c.getSourceManager();
  oclint::ViolationSet vs;
  oclint::RuleCarrier carrier(&c, &vs);
  Every a;
  a.takeoff(&carrier);
  const auto& got = vs.getViolations();
  size_t next = 0;
  std::vector<T> lines = split(u.code);
  for (size_t i = 0; i < a.nodes.size(); i++) {
    Stmt* s = a.nodes[i].first; Decl* d = a.nodes[i].second;
    T file, other; int l = 0, k = 0, l2 = 0, k2 = 0;
    if (!place(sm, s ? s->getBeginLoc() : d->getBeginLoc(), u, file, l, k)) continue;
    if (!place(sm, s ? s->getEndLoc() : d->getEndLoc(), u, other, l2, k2)) l2 = k2 = 0;
    T message = (s ? "s" : "d") + h::str(i);
    T want = file + ":" + h::str(l) + ":" + h::str(k) + "-" + h::str(l2) + ":" + h::str(k2) + " " + message, have = "no report";
    bool same = false;
    if (next < got.size()) { auto& v = got[next++]; have = v.path + ":" + h::str(v.startLine) + ":" + h::str(v.startColumn) + "-" + h::str(v.endLine) + ":" + h::str(v.endColumn) + " " + v.message; same = v.rule == &a; }
    if (want != have || !same) h::fail("location of a " + T(s ? s->getStmtClassName() : d->getDeclKindName()), u.text(), want, have + (same ? "" : " (other rule)"));
    // a number written out in the main file is where it is written
    if (auto* lit = s ? dyn_cast<IntegerLiteral>(s) : nullptr) {
      T num = h::str(lit->getValue().getZExtValue());
      int times = 0, y = 0, x = 0;
      for (size_t q = 0; q < lines.size(); q++) for (size_t p = lines[q].find(num); p != T::npos; p = lines[q].find(num, p + 1)) if ((p == 0 || !isalnum(lines[q][p - 1])) && (p + num.size() == lines[q].size() || !isalnum(lines[q][p + num.size()]))) { times++; y = q + 1; x = p + 1; }
      if (num.size() == 3 && times == 1 && !sm.isMacroBodyExpansion(s->getBeginLoc())) { h::ctx().nontrivial++; if (file.find("body.inc") == T::npos && (l != y || k != x)) h::fail("location of the number " + num, u.text(), h::str(y) + ":" + h::str(x), have); }
    }
  }
  if (next != got.size()) h::fail("more reports than nodes", u.text(), h::str(next), h::str(got.size()));
  if (got.size() > 3) h::sample(u.code.substr(u.code.size() > 200 ? u.code.size() - 200 : 0) + " -> " + h::str(got.size()) + " reports placed");
}

// ------------------------------------------------------------------------------------------- F02
static std::map<const oclint::RuleBase*, std::set<T>> told;
struct Lit : Named<oclint::AbstractASTVisitorRule<Lit>> {
  bool VisitIntegerLiteral(IntegerLiteral* l) { if (l->getValue().getZExtValue() >= 1000) this->addViolation(l, this, "#" + h::str(l->getValue().getZExtValue())); return true; }
  bool VisitNamedDecl(NamedDecl* d) { if (!d->isImplicit() && d->getDeclName().isIdentifier() && d->getName().starts_with("n_") && !isa<TemplateDecl>(d)) this->addViolation(d, this, d->getName().str()); return true; }
};
struct Scene {   // a program and what is hidden in it
  h::Rng& r;
  std::vector<T> rules;
  Unit u;
  T text; int line = 1, uid = 1000;
  bool cpp;
  std::vector<std::set<T>> open;          // annotations of the declarations around the place
  struct Item { T what; int line; std::set<T> marks; };
  std::vector<Item> items;
  struct Range { int from, to; std::set<T> marks; };
  std::vector<Range> ranges;
  std::set<int> quiet;
  Scene(h::Rng& r, const std::vector<T>& rules) : r(r), rules(rules) {}
  void put(const T& s) { for (char c : s) if (c == '\n') line++; text += s; }
  void nl() {
    if (r.chance(12)) { quiet.insert(line); put(one(r, {" //!OCLINT", " //!OCLINT(reason)", " /// see //!OCLINT", " /** //!OCLINT */"})); }
    else if (r.chance(12)) put(one(r, {" // OCLINT", " // //!OCLINT", " //! OCLINT", " /* //!OCLINT */", " //!oclint", " ///OCLINT"}));
    put("\n");
    if (r.chance(10)) put("\n");
  }
  std::set<T> pick(int pct) {
    std::set<T> m;
    while (r.chance(pct)) m.insert(r.chance(30) ? T("oclint:suppress") : r.chance(80) ? "oclint:suppress[" + r.pick(rules) + "]" + (r.chance(20) ? "[why]" : "") : one(r, {"oclint:suppress[]", "oclint:enforce", "suppress", "oclint:suppress[other]", "oclint:suppress "}));
    return m;
  }
  T marks(const std::set<T>& m) { T s; for (auto& x : m) s += " __attribute__((annotate(\"" + x + "\")))"; return s; }
  void item(const T& w, const std::set<T>& own = {}) { Item i; i.what = w; i.line = line; i.marks = own; for (auto& o : open) i.marks.insert(o.begin(), o.end()); items.push_back(i); }
  void range(int from, const std::set<T>& m) { if (!m.empty()) { Range x; x.from = from; x.to = line; x.marks = m; ranges.push_back(x); } }
  T num() { T n = h::str(++uid); item("#" + n); return n; }
  void expr() {
    if (r.chance(25)) { put("calc("); if (r.chance(30)) nl(); put(num() + ")"); }
    else if (r.chance(10)) { put("TEN("); put(num() + ")"); }
    else { put(num()); if (r.chance(20)) { put(" +"); nl(); put(num()); } }
    if (r.chance(8)) put(" + (\"//!OCLINT\" != 0)");
  }
  void var(const T& lead, int pct) {
    T n = "n_" + h::str(++uid);
    auto m = pick(pct);
    int from = line;
    bool macro = r.chance(15);
    item(n, m);
    put((macro ? T("WORD") : lead + "int") + " " + n + marks(m) + " = ");
    open.push_back(m);
    if (cpp && r.chance(25)) lambda(); else expr();
    open.pop_back();
    range(from, m);
    put(";"); nl();
  }
  void lambda() {
    auto m = pick(25);
    int from = line;
    put("[]()" + marks(m) + " {");
    open.push_back(m);
    nl(); stmts(1);
    put("return "); expr(); put("; }");
    open.pop_back();
    range(from, m);   // the call operator begins at its bracket
    put("()");
  }
  void stmts(int d) { for (int n = r.range(1, 2); n > 0; n--) stmt(d); }
  void stmt(int d) {
    switch (r.below(d <= 0 ? 3 : 7)) {
      case 0: expr(); put(";"); nl(); break;
      case 1: case 2: if (d <= 0) { expr(); put(";"); nl(); } else var("", 25); break;
      case 3: put("if ("); expr(); put(") {"); nl(); stmts(d - 1); put("}"); nl(); break;
      case 4: record(d - 1); break;
      case 5: put("{"); nl(); stmts(d - 1); put("}"); nl(); break;
      case 6: if (inc && !cpp) { put("{"); nl(); inc = false; for (size_t i = 0; i < incItems.size(); i++) { Item x = incItems[i]; x.line = -1; for (auto& o : open) x.marks.insert(o.begin(), o.end()); items.push_back(x); } put("\n#include \"body.inc\"\n"); put("}"); nl(); break; }
      default: put("for (int i = "); expr(); put("; i < 9; i++)"); nl(); expr(); put(";"); nl();
    }
  }
  void function(const T& lead, int pct) {
    T n = "n_" + h::str(++uid);
    auto m = pick(pct);
    int from = line;
    item(n, m);
    T a = marks(m);
    put(lead + "int" + a + " " + n + "(");
    open.push_back(m);
    if (r.chance(30)) { auto pm = pick(20); T p = "n_" + h::str(++uid); item(p, pm); int pf = line; put("int" + marks(pm) + " " + p); range(pf, pm); }
    put(")"); if (r.chance(30)) nl();
    put(" {"); nl();
    for (int k = r.range(1, 3); k > 0; k--) stmt(2);
    put("return 0;"); nl(); put("}");
    open.pop_back();
    range(from, m); nl();
  }
  void record(int d) {
    T n = "n_" + h::str(++uid);
    auto m = pick(30);
    int from = line;
    item(n, m);
    put("struct" + marks(m) + " " + n + " {");
    open.push_back(m);
    nl();
    for (int k = r.range(1, 2); k > 0; k--) {
      if (cpp && d > 0 && r.chance(35)) { function("", 25); continue; }
      if (cpp && d > 0 && r.chance(20)) { record(d - 1); continue; }
      T f = "n_" + h::str(++uid);
      auto fm = pick(20);
      item(f, fm);
      int ff = line;
      put("int " + f + marks(fm));
      if (cpp && r.chance(50)) { open.push_back(fm); put(" = "); expr(); open.pop_back(); }
      range(ff, fm);
      put(";"); nl();
    }
    if (cpp && r.chance(30)) {   // a constructor whose initialiser holds something
      auto cm = pick(30);
      int cf = line;
      put(n + "()" + marks(cm)); if (r.chance(40)) nl();
      // the member to initialise
      T f = "k" + h::str(++uid);
      put(" : " + f + "(");
      open.push_back(cm); expr(); open.pop_back();
      put(") {}");
      range(cf, cm);
      put(" int " + f + ";"); nl();
    }
    put("}");
    open.pop_back();
    range(from, m);
    put(";"); nl();
  }
  bool inc = true; std::vector<Item> incItems;   // statements in a file of their own, on many lines
  void build() {
    u.lang = r.below(4);
    cpp = u.lang == 1 || u.lang == 3;
    T hidden = "#define TEN(a) ((a) + 10)\n#define WORD int\nint calc(int);\n";
    auto hm = pick(40);
    hidden += "struct" + marks(hm) + " InHeader {\n\n\n\n\n\n int a; //!OCLINT\n\n\n\n };\n";
    T body;
    for (int i = 0; i < 40; i++) { T n = h::str(++uid); Item x; x.what = "#" + n; x.line = -1; incItems.push_back(x); body += n + ";\n"; }
    u.files = {{"defs.h", hidden}, {"body.inc", body}};
    put("#include \"defs.h\""); nl();
    for (int n = r.range(1, 4); n > 0; n--)
      switch (r.below(cpp ? 4 : 3)) {
        case 0: if (cpp) var("", 35); else { T v = "n_" + h::str(++uid); auto m = pick(35); item(v, m); int f = line; open.push_back(m); put("int " + v + marks(m) + " = " + num()); open.pop_back(); range(f, m); put(";"); nl(); } break;
        case 1: function(one(r, {"", "", "static "}), 30); break;
        case 2: record(2); break;
        default: { T n = "n_" + h::str(++uid); auto m = pick(30); int f = line; item(n, m); put("namespace" + T() + " " + marks(m) + " " + n + " {"); open.push_back(m); nl(); if (r.chance(60)) function("", 30); else var("", 30); put("}"); open.pop_back(); range(f, m); nl(); }
      }
    u.code = text;
  }
  static bool hides(const std::set<T>& m, const T& rule) { for (auto& x : m) if (x == "oclint:suppress" || begins(x, "oclint:suppress[" + rule + "]")) return true; return false; }
  std::set<T> expected(const T& rule) {
    std::set<T> s;
    for (auto& i : items) if (!hides(i.marks, rule) && !quiet.count(i.line)) s.insert(i.what);
    return s;
  }
  std::set<T> expectedLines(const T& rule) {
    std::set<T> s;
    int n = split(u.code).size() - (u.code.empty() || u.code.back() == '\n' ? 1 : 0);
    for (int i = 1; i <= n; i++) {
      bool hide = quiet.count(i);
      for (auto& x : ranges) if (i >= x.from && i <= x.to && hides(x.marks, rule)) hide = true;
      if (!hide) s.insert(h::str(i));
    }
    return s;
  }
};
static T text(const std::set<T>& s) { T t; for (auto& x : s) t += x + " "; return t; }
static void f02(h::Rng& r) {
  static const std::vector<T> names = {"probe one", "probe two", "probe"};
  std::vector<std::unique_ptr<ASTUnit>> kept;
  T history;
  for (int round = r.range(1, 3); round > 0; round--) {
    Scene s(r, names);
    s.build();
    auto ast = parse(s.u, false, r.chance(50) ? "input" : "other");
    if (!ast) continue;
    for (int runs = r.range(2, 8); runs > 0; runs--) {
      T rule = r.pick(names);
      bool lines = r.chance(50);
      oclint::ViolationSet vs;
      oclint::RuleCarrier carrier(&ast->getASTContext(), &vs);
      std::set<T> got, want = lines ? s.expectedLines(rule) : s.expected(rule);
      history += (lines ? " lines:" : " nodes:") + rule + ";";
      if (lines) { Liner l; l.called = rule; l.report = true; l.takeoff(&carrier); for (auto& v : vs.getViolations()) got.insert(h::str(v.startLine)); }
      else { Lit l; l.called = rule; l.takeoff(&carrier); for (auto& v : vs.getViolations()) got.insert(v.message); }
      if (got != want) h::fail("reports of the rule \"" + rule + "\" about " + (lines ? "lines" : "nodes") + " that are not hidden (checks made before in this process:" + history + ")", s.u.text(), text(want), text(got));
      if (want.size() && (s.ranges.size() || s.quiet.size())) h::ctx().nontrivial++;
    }
    history += " | ";
    h::sample(s.u.code.substr(0, 300));
    if (r.chance(50)) kept.push_back(std::move(ast));
  }
}
int main(int argc, char** argv) { return h::run(argc, argv, {{"F01", f01}, {"F02", f02}, {"F03", f03}, {"F04", f04}, {"F05", f05}}); }
