// Replay harness for rules: every registered rule runs on generated programs; what it records has to be
// exactly what the property's specification (specs/, the one the contracts are proved against) says.
#ifndef RULES_H
#define RULES_H
#include "rgen.h"
#include <map>
#include <memory>
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/ASTUnit.h>
#include <clang/Tooling/Tooling.h>
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include "specs/common.h"
namespace spec { std::vector<Report> reports; }
namespace rules {
using namespace clang;
enum { C = 1, CXX = 2, OBJC = 4, ALL = 7 };
struct Handler { std::function<void(oclint::RuleBase*, Stmt*)> stmt; std::function<void(oclint::RuleBase*, Decl*)> decl; };
struct Spec { int langs = ALL; std::function<void(oclint::RuleBase*)> setUp; std::vector<Handler> handlers; };
inline std::map<std::string, Spec>& table() { static std::map<std::string, Spec> t; return t; }
inline std::map<std::string, std::function<void()>>& configurations() { static std::map<std::string, std::function<void()>> t; return t; }
inline int& only() { static int m = ALL; return m; }
template <class K, class F> Handler onStmt(F f) { Handler h; h.stmt = [f](oclint::RuleBase* r, Stmt* s) { if (K* k = dyn_cast<K>(s)) f(r, k); }; return h; }
template <class K, class F> Handler onDecl(F f) { Handler h; h.decl = [f](oclint::RuleBase* r, Decl* s) { if (K* k = dyn_cast<K>(s)) f(r, k); }; return h; }
struct Nodes : RecursiveASTVisitor<Nodes> {
  std::vector<std::pair<Stmt*, Decl*>> all;
  bool VisitStmt(Stmt* s) { all.push_back({s, nullptr}); return true; }
  bool VisitDecl(Decl* d) { all.push_back({nullptr, d}); return true; }
};
// the nodes of a kind under a node, in the order of clang's traversal
template <class K> struct Under : RecursiveASTVisitor<Under<K>> {
  std::vector<K*> found;
  bool VisitStmt(Stmt* s) { if constexpr (std::is_base_of_v<Stmt, K>) if (K* k = dyn_cast<K>(s)) found.push_back(k); return true; }
  bool VisitDecl(Decl* d) { if constexpr (std::is_base_of_v<Decl, K>) if (K* k = dyn_cast<K>(d)) found.push_back(k); return true; }
};
template <class K> std::vector<K*> under(Stmt* s) { Under<K> u; u.TraverseStmt(s); return u.found; }
template <class K> std::vector<K*> under(Decl* d) { Under<K> u; u.TraverseDecl(d); return u.found; }
struct Result {
  std::string file, message, rule; int a, b, c, d;
  bool operator<(const Result& o) const { return std::tie(file, a, b, c, d, rule, message) < std::tie(o.file, o.a, o.b, o.c, o.d, o.rule, o.message); }
  bool operator==(const Result& o) const { return !(*this < o) && !(o < *this); }
  std::string text() const { return file + ":" + h::str(a) + ":" + h::str(b) + "-" + h::str(c) + ":" + h::str(d) + " [" + rule + "] " + message; }
};
inline std::string text(const std::vector<Result>& v) { std::string s; for (auto& r : v) s += "\n  " + r.text(); return s.empty() ? "none" : s; }
inline Result locate(SourceManager& sm, const spec::Report& r) {
  SourceLocation b, e;
  if (r.kind == 0) { b = ((const Stmt*)r.node)->getBeginLoc(); e = ((const Stmt*)r.node)->getEndLoc(); }
  else { b = ((const Decl*)r.node)->getBeginLoc(); e = ((const Decl*)r.node)->getEndLoc(); }
  b = sm.getFileLoc(b); e = sm.getFileLoc(e);
  Result x;
  x.file = sm.getFilename(b).str(); x.a = sm.getPresumedLineNumber(b); x.b = sm.getPresumedColumnNumber(b);
  x.c = sm.getPresumedLineNumber(e); x.d = sm.getPresumedColumnNumber(e); x.message = r.message; x.rule = r.rule->name();
  return x;
}
struct Source { int lang; std::string code; std::vector<std::string> args; };   // lang: 0 c, 1 cpp, 2 m, 3 mm
inline std::unique_ptr<ASTUnit> parse(const Source& s) {
  static const char* names[] = {"input.c", "input.cpp", "input.m", "input.mm"};
  { std::ofstream f("current"); f << names[s.lang] << "\n" << s.code; }
  std::vector<std::string> args = {"-w", "-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions", "-ferror-limit=3", "-fblocks", "-fobjc-runtime=macosx", "-Wno-everything"};
  args.push_back(s.lang == 0 || s.lang == 2 ? "-std=gnu99" : "-std=c++17");
  for (auto& a : s.args) args.push_back(a);
  struct Quiet : DiagnosticConsumer { std::string first; void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic& i) override { DiagnosticConsumer::HandleDiagnostic(l, i); if (first.empty() && l >= DiagnosticsEngine::Error) { SmallString<100> b; i.FormatDiagnostic(b); first = b.str().str(); } } } q;
  std::unique_ptr<clang::ASTUnit> ast;
  { h::Parsing parsing; ast = tooling::buildASTFromCodeWithArgs(s.code, args, names[s.lang], "clang-tool", std::make_shared<PCHContainerOperations>(), tooling::getClangStripDependencyFileAdjuster(), tooling::FileContentMappings(), &q);}
  static long bad = 0, good = 0;
  if (!ast || q.getNumErrors()) {
    bad++;
    if (getenv("SHOW_BAD")) std::cerr << "---- " << q.first << "\n" << s.code << "\n";
    if (bad > 60 && bad > 3 * good) { std::cerr << "generated code does not compile: " << q.first << "\n" << s.code; exit(4); }
    return nullptr;
  }
  good++;
  if (getenv("SHOW_STATS")) std::cerr << good << " good " << bad << " bad\n";
  return ast;
}
inline bool supported(int langs, const LangOptions& o) { return o.ObjC ? langs & OBJC : o.CPlusPlus ? langs & CXX : o.C99 ? langs & C : 0; }
inline void compare(const Source& src, const std::string& setting = "") {
  auto ast = parse(src);
  if (!ast) return;
  ASTContext& ctx = ast->getASTContext();
  SourceManager& sm = ctx.getSourceManager();
  Nodes nodes;
  for (Decl* d : ctx.getTranslationUnitDecl()->decls()) if (d->getBeginLoc().isValid() && sm.isInMainFile(d->getBeginLoc())) nodes.TraverseDecl(d);
  for (int i = 0; i < oclint::RuleSet::numberOfRules(); i++) {
    oclint::RuleBase* rule = oclint::RuleSet::getRuleAtIndex(i);
    auto it = table().find(rule->name());
    if (it == table().end()) continue;
    if (!h::ctx().arg.empty() && h::ctx().arg != rule->name()) continue;
    oclint::ViolationSet vs;
    oclint::RuleCarrier carrier(&ctx, &vs);
    rule->takeoff(&carrier);
    std::vector<Result> want, got;
    spec::reports.clear();
    if (supported(it->second.langs, ctx.getLangOpts())) {
      if (it->second.setUp) it->second.setUp(rule);
      for (auto& n : nodes.all)
        for (auto& hd : it->second.handlers) { if (n.first && hd.stmt) hd.stmt(rule, n.first); if (n.second && hd.decl) hd.decl(rule, n.second); }
    }
    for (auto& r : spec::reports) { Result x = locate(sm, r); if (!x.file.empty()) want.push_back(x); }
    for (auto& v : vs.getViolations()) { Result x; x.file = v.path; x.a = v.startLine; x.b = v.startColumn; x.c = v.endLine; x.d = v.endColumn; x.message = v.message; x.rule = v.rule->name(); got.push_back(x); }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (!(want == got)) {
      std::vector<Result> miss, extra;
      std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
      std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
      static const char* names[] = {"C", "C++", "Objective-C", "Objective-C++"};
      h::fail("rule \"" + rule->name() + "\" on a " + names[src.lang] + " file" + setting, src.code, "missing: " + text(miss), "unexpected: " + text(extra));
    }
    static std::map<std::string, long> hits;
    if (got.size()) { h::ctx().nontrivial++; if (hits[rule->name()]++ == 0) h::sample(src.code.substr(0, src.code.size() > 150 ? 0 : 150) + text(got) + " in ..." + src.code.substr(src.code.size() > 220 ? src.code.size() - 220 : 0)); }
    if (getenv("SHOW_HITS")) { static long k = 0; if (++k % 5000 == 0) { for (auto& x : hits) std::cerr << x.second << " " << x.first << "; "; std::cerr << "\n"; } }
  }
}
inline Source random(h::Rng& r, const std::string& focus) {
  Source s;
  if (const char* f = getenv("SRC")) {   // one file, for trying things out
    std::ifstream in(f); std::stringstream b; b << in.rdbuf(); std::string n = f;
    s.code = b.str(); n = n.substr(n.rfind('.')); s.lang = n == ".c" ? 0 : n == ".cpp" ? 1 : n == ".m" ? 2 : 3;
    if (s.lang == 1) s.args = {"-std=c++2b"};
    return s;
  }
  do s.lang = r.below(4); while (!(only() & (s.lang == 0 ? C : s.lang == 1 ? CXX : OBJC)));
  rgen::Prog p(r, focus);
  p.cpp = s.lang == 1 || s.lang == 3; p.objc = s.lang >= 2;
  p.limit = r.chance(20) ? 100 : 30;
  s.code = p.prelude();
  const size_t head = s.code.size();
  int n = focus == "S09" ? (r.chance(20) ? 1 : 0) : r.range(1, 3);
  for (int i = 0; i < n; i++) s.code += p.function(i);
  if (focus == "S07") for (int i = r.range(1, 4); i > 0; i--) { p.scopes.clear(); s.code += r.chance(85) ? p.unused(i) : p.klass(i); }
  if (focus == "S08" && p.cpp) for (int i = r.range(1, 3); i > 0; i--) s.code += p.family(i);
  if (focus == "S09") for (int i = r.range(1, 2); i > 0; i--) { p.scopes.clear(); s.code += p.objc ? p.cocoa(i) : p.banned(i); if (p.objc && r.chance(15)) s.code += p.banned(i); }
  if (focus == "S01") for (int i = r.below(3); i > 0; i--) { p.scopes.clear(); s.code += p.klass(i); }
  if (r.chance(40)) s.code = s.code.substr(0, head) + rgen::Twist{r, p.cpp, p.objc}(s.code.substr(head));
  return s;
}
}
#endif
