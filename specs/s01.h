// S01: sizes and names
#include "common.h"
#include <algorithm>
#include <set>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclObjC.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
#include <clang/Basic/SourceManager.h>
#include "oclint/util/StdUtil.h"
namespace spec {
using oclint::RuleConfiguration;
// the metrics (decided in M01 to M04)
int cyclomaticOf(Decl* d);
int npathOf(Stmt* s);
int ncssOf(Decl* d);
int depthOf(Stmt* s);
inline int lines(SourceRange range, const SourceManager& sm) { return (int)(sm.getPresumedLineNumber(range.getEnd()) - sm.getPresumedLineNumber(range.getBegin()) + 1); }
inline std::string more(const std::string& what, int measure, const std::string& unit, int limit) {
  return what + toString<int>(measure) + unit + " exceeds limit of " + toString<int>(limit);
}
inline void beyond(oclint::RuleBase* r, Decl* d, int measure, int limit, const std::string& what, const std::string& unit) { if (measure > limit) report(r, d, more(what, measure, unit, limit)); }
// what counts is the declaration that has the body
inline bool defines(FunctionDecl* f) { return f->doesThisDeclarationHaveABody(); }
inline bool defines(ObjCMethodDecl* m) { return m->hasBody(); }
template <class K> inline void ccn(oclint::RuleBase* r, K* d) { if (defines(d)) beyond(r, d, cyclomaticOf(d), RuleConfiguration::intForKey("CYCLOMATIC_COMPLEXITY", 10), "Cyclomatic Complexity Number ", ""); }
template <class K> inline void ncss(oclint::RuleBase* r, K* d) { if (defines(d)) beyond(r, d, ncssOf(d), RuleConfiguration::intForKey("NCSS_METHOD", 30), "Method of ", " non-commenting source statements"); }
template <class K> inline void npath(oclint::RuleBase* r, K* d) {
  if (!defines(d)) return;
  CompoundStmt* c = dyn_cast<CompoundStmt>(d->getBody());
  if (c) beyond(r, d, npathOf(c), RuleConfiguration::intForKey("NPATH_COMPLEXITY", 200), "NPath Complexity Number ", "");
}
inline void ccnFunction(oclint::RuleBase* r, FunctionDecl* d) { ccn(r, d); }
inline void ccnMethod(oclint::RuleBase* r, ObjCMethodDecl* d) { ccn(r, d); }
inline void ncssFunction(oclint::RuleBase* r, FunctionDecl* d) { ncss(r, d); }
inline void ncssMethod(oclint::RuleBase* r, ObjCMethodDecl* d) { ncss(r, d); }
inline void npathFunction(oclint::RuleBase* r, FunctionDecl* d) { npath(r, d); }
inline void npathMethod(oclint::RuleBase* r, ObjCMethodDecl* d) { npath(r, d); }
inline void depth(oclint::RuleBase* r, CompoundStmt* s) {
  int limit = RuleConfiguration::intForKey("NESTED_BLOCK_DEPTH", 5), n = depthOf(s);
  if (n > limit) report(r, s, more("Block depth of ", n, "", limit));
}
// a method written inside its class is counted with the class
inline bool insideClass(FunctionDecl* f) { CXXMethodDecl* m = dyn_cast<CXXMethodDecl>(f); return m && m->getLexicalDeclContext() && isa<CXXRecordDecl>(m->getLexicalDeclContext()); }
inline void longBody(oclint::RuleBase* r, Decl* d, const SourceManager& sm) { beyond(r, d, lines(d->getBody()->getSourceRange(), sm), RuleConfiguration::intForKey("LONG_METHOD", 50), "Method with ", " lines"); }
inline void longFunction(oclint::RuleBase* r, FunctionDecl* d, const SourceManager& sm) { if (defines(d) && !insideClass(d)) longBody(r, d, sm); }
inline void longMethod(oclint::RuleBase* r, ObjCMethodDecl* d, const SourceManager& sm) { if (defines(d)) longBody(r, d, sm); }
// every declaration of a class counts its own lines
inline void longClass(oclint::RuleBase* r, Decl* d, const SourceManager& sm, int limit, const std::string& what) { beyond(r, d, lines(d->getSourceRange(), sm), limit, what + " with ", " lines"); }
inline int classLimit() { return RuleConfiguration::intForKey("LONG_CLASS", 1000); }
inline int fieldsLimit() { return RuleConfiguration::intForKey("TOO_MANY_FIELDS", 20); }
inline int methodsLimit() { return RuleConfiguration::intForKey("TOO_MANY_METHODS", 30); }
inline int parametersLimit() { return RuleConfiguration::intForKey("TOO_MANY_PARAMETERS", 10); }
inline void fieldsCXX(oclint::RuleBase* r, CXXRecordDecl* d, int limit) { if (d->isThisDeclarationADefinition()) beyond(r, d, (int)std::distance(d->field_begin(), d->field_end()), limit, "C++ class with ", " fields"); }
inline void fieldsObjC(oclint::RuleBase* r, ObjCInterfaceDecl* d, int limit) { if (d->isThisDeclarationADefinition()) beyond(r, d, (int)d->ivar_size(), limit, "Objective-C interface with ", " fields"); }
inline void methodsObjC(oclint::RuleBase* r, ObjCImplDecl* d, int limit) { beyond(r, d, (int)std::distance(d->meth_begin(), d->meth_end()), limit, "Objective-C implementation with ", " methods"); }
// the methods that are written
LOGIC inline int written(CXXRecordDecl* d, int n) {
  if (n <= 0) return 0;
  CXXMethodDecl* m = *std::next(d->method_begin(), n - 1);
  return written(d, n - 1) + (m->isImplicit() ? 0 : 1);
}
inline void methodsCXX(oclint::RuleBase* r, CXXRecordDecl* d, int limit) { beyond(r, d, written(d, (int)std::distance(d->method_begin(), d->method_end())), limit, "C++ class with ", " methods"); }
inline void parametersFunction(oclint::RuleBase* r, FunctionDecl* d, int limit) { if (defines(d)) beyond(r, d, (int)d->param_size(), limit, "Method with ", " parameters"); }
inline void parametersMethod(oclint::RuleBase* r, ObjCMethodDecl* d, int limit) { if (defines(d)) beyond(r, d, (int)d->param_size(), limit, "Method with ", " parameters"); }
inline void longName(oclint::RuleBase* r, VarDecl* v) {
  std::string n = v->getNameAsString();
  int limit = RuleConfiguration::intForKey("LONG_VARIABLE_NAME", 20), length = n.size();
  if (length <= limit) return;
  if (limit >= 0 && length > limit + 10) n = n.substr(0, limit + 3) + "..." + n.substr(n.length() - 3, n.length());
  report(r, v, "Length of variable name `" + n + "` is " + toString<int>(length) + ", which is longer than the threshold of " + toString<int>(limit));
}
// exempt: the variables of loop headers and handlers
inline void shortName(oclint::RuleBase* r, VarDecl* v, const std::set<VarDecl*>& exempt) {
  std::string n = v->getNameAsString();
  int limit = RuleConfiguration::intForKey("SHORT_VARIABLE_NAME", 3), length = n.size();
  if (length > 0 && length < limit && exempt.count(v) == 0)
    report(r, v, "Length of variable name `" + n + "` is " + toString<int>(length) + ", which is shorter than the threshold of " + toString<int>(limit));
}
LOGIC inline std::set<VarDecl*> declared(std::set<VarDecl*> s, DeclStmt* d, int n) {
  if (n <= 0) return s;
  std::set<VarDecl*> t = declared(s, d, n - 1);
  VarDecl* v = dyn_cast_or_null<VarDecl>(*(d->decl_begin() + (n - 1)));
  if (v) t.insert(v);
  return t;
}
inline std::set<VarDecl*> with(const std::set<VarDecl*>& s, Stmt* init) {
  DeclStmt* d = dyn_cast_or_null<DeclStmt>(init);
  return d ? declared(s, d, (int)std::distance(d->decl_begin(), d->decl_end())) : s;
}
inline std::set<VarDecl*> with(std::set<VarDecl*> s, VarDecl* v) { if (v) s.insert(v); return s; }
}
