// S04: switch statements
#include "common.h"
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
namespace spec {
// is there a break, continue, return or throw in what stands under a node?
bool leavesUnder(Stmt* s);
std::vector<LabelStmt*> labelsUnder(Stmt* s);
inline bool leaves(Stmt* s) {
  if (s == nullptr) return false;
  if (isa<BreakStmt>(s) || isa<ReturnStmt>(s) || isa<ContinueStmt>(s) || isa<CXXThrowExpr>(s) || isa<ObjCAtThrowStmt>(s)) return true;
  return (isa<ExprWithCleanups>(s) || isa<CompoundStmt>(s)) && leavesUnder(s);
}
inline Stmt* nth(CompoundStmt* c, int i) { return *(c->body_begin() + i); }
// after the first n statements of the body: is there a label whose part has not been left yet?
LOGIC inline bool pending(CompoundStmt* c, int n) {
  if (n <= 0) return false;
  Stmt* s = nth(c, n - 1);
  if (leaves(s)) return false;
  if (s && isa<SwitchCase>(s)) return !leavesUnder(s);
  return pending(c, n - 1);
}
// is there a label, from statement i on, that an earlier part runs into?
LOGIC inline bool runsInto(CompoundStmt* c, int i) {
  if (i < 0 || i >= (int)c->size()) return false;
  Stmt* s = nth(c, i);
  if (!leaves(s) && s && isa<SwitchCase>(s) && pending(c, i)) return true;
  return runsInto(c, i + 1);
}
inline void missingBreak(oclint::RuleBase* r, SwitchStmt* s) {
  CompoundStmt* c = dyn_cast_or_null<CompoundStmt>(s->getBody());
  if (c && (runsInto(c, 0) || pending(c, c->size()))) report(r, s);
}
// the labels of a switch are chained, last one first
LOGIC inline bool hasDefault(SwitchCase* c) {
  if (c == nullptr) return false;
  if (isa<DefaultStmt>(c)) return true;
  return hasDefault(c->getNextSwitchCase());
}
LOGIC inline int caseLabels(SwitchCase* c) {
  if (c == nullptr) return 0;
  return (isa<CaseStmt>(c) ? 1 : 0) + caseLabels(c->getNextSwitchCase());
}
// the default label that does not stand last, if there is one
LOGIC inline std::vector<Report> earlyDefault(oclint::RuleBase* r, SwitchCase* c) {
  if (c == nullptr || !isa<CaseStmt>(c)) return {};
  SwitchCase* n = c->getNextSwitchCase();
  if (n && isa<DefaultStmt>(n)) return {found(r, n)};
  return earlyDefault(r, n);
}
inline void missingDefault(oclint::RuleBase* r, SwitchStmt* s) { if (!s->isAllEnumCasesCovered() && !hasDefault(s->getSwitchCaseList())) report(r, s); }
inline void unneededDefault(oclint::RuleBase* r, SwitchStmt* s) { if (hasDefault(s->getSwitchCaseList()) && s->isAllEnumCasesCovered()) report(r, s); }
inline void defaultNotLast(oclint::RuleBase* r, SwitchStmt* s) { report(earlyDefault(r, s->getSwitchCaseList())); }
inline void tooFewBranches(oclint::RuleBase* r, SwitchStmt* s) {
  if (caseLabels(s->getSwitchCaseList()) < oclint::RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3)) report(r, s);
}
LOGIC inline std::vector<Report> each(oclint::RuleBase* r, const std::vector<LabelStmt*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = each(r, l, n - 1);
  if (l[n - 1]) v.push_back(found(r, l[n - 1]));
  return v;
}
inline void strayLabels(oclint::RuleBase* r, SwitchStmt* s) {
  std::vector<LabelStmt*> l = labelsUnder(s);
  report(each(r, l, l.size()));
}
}
