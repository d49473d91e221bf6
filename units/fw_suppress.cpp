// F02: which reports annotations and comments hide.
#include "cppvc.h"
#include <clang/AST/AST.h>
#include <clang/AST/ParentMapContext.h>
#include "oclint/RuleBase.h"
#include "oclint-rules/lib/helper/SuppressHelper.cpp"
using namespace clang;
using oclint::RuleBase;
namespace spec {
// annotated to suppress everything, or the rule of that name (units/fw_attr.cpp)
bool all(const Decl* d, std::string kind);
bool only(const Decl* d, std::string kind, std::string rule);
inline bool marked(const Decl* d, const RuleBase* rule) { return rule && (all(d, "suppress") || only(d, "suppress", rule->attributeName())); }
LOGIC bool around(DynTypedNode n, ASTContext& c, const RuleBase* rule) {
  if (c.getParents(n).empty()) return false;
  const DynTypedNode& p = *c.getParents(n).begin();
  return marked(p.get<Decl>(), rule) || around(p, c, rule);
}
}
using namespace spec;
ASSUME("declHasOCLintAttribute") bool a_all(const Decl* d, const std::string& kind, std::string* comment) { REQUIRES(comment == nullptr); return all(d, kind); }
ASSUME("declHasActionAttribute") bool a_only(const Decl* d, const std::string& kind, const RuleBase& rule, std::string* comment) { REQUIRES(comment == nullptr); return only(d, kind, rule.attributeName()); }
CONTRACT("markedAsSuppress") bool c_marked(const Decl* d, RuleBase* rule) { return marked(d, rule); }
CONTRACT("markedParentsAsSuppress") bool c_around(const DynTypedNode& n, ASTContext& c, RuleBase* rule) { return around(n, c, rule); }
CONTRACT("shouldSuppress") bool c_decl(const Decl* d, ASTContext& c, RuleBase* rule) { REQUIRES(d != nullptr); return marked(d, rule) || around(DynTypedNode::create(*d), c, rule); }
CONTRACT("shouldSuppress") bool c_stmt(const Stmt* s, ASTContext& c, RuleBase* rule) { REQUIRES(s != nullptr); return around(DynTypedNode::create(*s), c, rule); }
namespace spec {
inline std::set<std::pair<int, int>> joined(std::set<std::pair<int, int>> a, const std::set<std::pair<int, int>>& b) { a.insert(b.begin(), b.end()); return a; }
// first and last lines of the annotated declarations among a declaration and what is in it
std::set<std::pair<int, int>> within(const Decl* d, const SourceManager& m, const RuleBase* rule);
LOGIC std::set<std::pair<int, int>> covered(DeclContext* unit, ASTContext& c, const RuleBase* rule, int n) {
  if (n <= 0) return {};
  Decl* d = *std::next(unit->decls_begin(), n - 1);
  std::set<std::pair<int, int>> r = covered(unit, c, rule, n - 1);
  if (d->getBeginLoc().isValid() && c.getSourceManager().isInMainFile(d->getBeginLoc())) r = joined(r, within(d, c.getSourceManager(), rule));
  return r;
}
inline std::set<std::pair<int, int>> allCovered(ASTContext& c, const RuleBase* rule) {
  DeclContext* unit = c.getTranslationUnitDecl();
  return covered(unit, c, rule, std::distance(unit->decls_begin(), unit->decls_end()));
}
}
ASSUME("clang::RecursiveASTVisitor::TraverseDecl")
bool a_within(DeclAnnotationRangeCollector& self, Decl* d) { self._range = joined(self._range, within(d, *self._sourceManager, self._rule)); return true; }
CONTRACT("DeclAnnotationRangeCollector::collect")
RangeSet c_collect(DeclAnnotationRangeCollector& self, ASTContext& c, RuleBase* rule) {
  self._rule = rule;
  self._sourceManager = &c.getSourceManager();
  self._range = allCovered(c, rule);
  return self._range;
}
CONTRACT("DeclAnnotationRangeCollector::VisitDecl")
bool c_visit(DeclAnnotationRangeCollector& self, Decl* d) {
  if (marked(d, self._rule)) self._range.insert(std::make_pair(self._sourceManager->getPresumedLineNumber(d->getBeginLoc()), self._sourceManager->getPresumedLineNumber(d->getEndLoc())));
  return true;
}
namespace spec {
// the lines on which a comment says so
LOGIC std::set<int> said(const std::vector<unsigned>& keys, const std::map<unsigned, RawComment*>& comments, ASTContext& c, int n) {
  if (n <= 0) return {};
  std::set<int> r = said(keys, comments, c, n - 1);
  RawComment* t = comments.find(keys[n - 1])->second;
  if (t != nullptr && t->getRawText(c.getSourceManager()).find("//!OCLINT") != llvm::StringRef::npos) r.insert((int)c.getSourceManager().getPresumedLineNumber(t->getBeginLoc()));
  return r;
}
inline std::set<int> silenced(ASTContext& c) {
  const std::map<unsigned, RawComment*>* m = c.Comments.getCommentsInFile(c.getSourceManager().getMainFileID());
  if (m == nullptr) return {};
  std::vector<unsigned> k = cppvc::keys(*m);
  return said(k, *m, c, k.size());
}
LOGIC bool inside(const std::vector<std::pair<int, int>>& ranges, int line, int i) {
  if (i < 0 || i >= (int)ranges.size()) return false;
  return line >= ranges[i].first && line <= ranges[i].second || inside(ranges, line, i + 1);
}
inline bool hiddenByRange(ASTContext& c, int line, const RuleBase* rule) { return inside(cppvc::keys(allCovered(c, rule)), line, 0); }
}
ASSUME("clang::ASTContext::AddDeallocation") void a_dealloc(const ASTContext& self, void (*f)(void*), void* d) {}
// what is remembered about a translation unit is what is true of it
CONTRACT("lineBasedShouldSuppress")
bool c_line(int line, ASTContext& c) {
  REQUIRES(singleLineMapping.count(&c) == 0 || singleLineMapping.find(&c)->second == silenced(c));
  if (singleLineMapping.count(&c) == 0) singleLineMapping[&c] = silenced(c);
  return silenced(c).count(line) != 0;
}
CONTRACT("rangeBasedShouldSuppress")
bool c_range(int line, ASTContext& c, RuleBase* rule) {
  REQUIRES(rule != nullptr);
  REQUIRES(rangeMapping.count(&c) == 0 || rangeMapping.find(&c)->second.count(rule->attributeName()) == 0 || rangeMapping.find(&c)->second.find(rule->attributeName())->second == allCovered(c, rule));
  std::map<std::string, RangeSet>& m = rangeMapping[&c];
  if (m.count(rule->attributeName()) == 0) m[rule->attributeName()] = allCovered(c, rule);
  return hiddenByRange(c, line, rule);
}
CONTRACT("shouldSuppress")
bool c_place(int line, ASTContext& c, RuleBase* rule) {
  REQUIRES(singleLineMapping.count(&c) == 0 || singleLineMapping.find(&c)->second == silenced(c));
  REQUIRES(rule == nullptr || rangeMapping.count(&c) == 0 || rangeMapping.find(&c)->second.count(rule->attributeName()) == 0 || rangeMapping.find(&c)->second.find(rule->attributeName())->second == allCovered(c, rule));
  if (singleLineMapping.count(&c) == 0) singleLineMapping[&c] = silenced(c);
  if (silenced(c).count(line) != 0) return true;
  if (rule == nullptr) return false;
  std::map<std::string, RangeSet>& m = rangeMapping[&c];
  if (m.count(rule->attributeName()) == 0) m[rule->attributeName()] = allCovered(c, rule);
  return hiddenByRange(c, line, rule);
}
CONTRACT("forgetContext")
void c_forget(void* c) { singleLineMapping.erase((const ASTContext*)c); rangeMapping.erase((const ASTContext*)c); }
