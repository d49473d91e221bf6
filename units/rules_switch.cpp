// S04: switch statements.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s04.h"
#define rules rules1
#include "oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/convention/SwitchStatementsShouldHaveDefaultRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/convention/CoveredSwitchStatementsDontNeedDefaultRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/convention/NonCaseLabelInSwitchStatementRule.cpp"
#undef rules
// clang's traversal of what stands under a node calls the Visit function for every node and ends, false, when one returns false
ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_find(MissingBreakInSwitchStatementRule::FindingBreak& self, Stmt* s) { return !spec::leavesUnder(s); }
ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_labels(NonCaseLabelInSwitchStatementRule::ExtractLabelStmts& self, Stmt* s) { *self._labels = cppvc::concat(*self._labels, spec::labelsUnder(s)); return true; }

VISIT(MissingBreakInSwitchStatementRule, SwitchStmt, missingBreak)
ONLY(MissingBreakInSwitchStatementRule, SwitchStmt)
VISIT(SwitchStatementsShouldHaveDefaultRule, SwitchStmt, missingDefault)
ONLY(SwitchStatementsShouldHaveDefaultRule, SwitchStmt)
VISIT(CoveredSwitchStatementsDontNeedDefaultRule, SwitchStmt, unneededDefault)
ONLY(CoveredSwitchStatementsDontNeedDefaultRule, SwitchStmt)
VISIT(DefaultLabelNotLastInSwitchStatementRule, SwitchStmt, defaultNotLast)
ONLY(DefaultLabelNotLastInSwitchStatementRule, SwitchStmt)
VISIT(TooFewBranchesInSwitchStatementRule, SwitchStmt, tooFewBranches)
ONLY(TooFewBranchesInSwitchStatementRule, SwitchStmt)
VISIT(NonCaseLabelInSwitchStatementRule, SwitchStmt, strayLabels)
ONLY(NonCaseLabelInSwitchStatementRule, SwitchStmt)
// one node of each kind for the inner traversals
#define FINDS(KIND) \
  bool finds_##KIND(MissingBreakInSwitchStatementRule::FindingBreak& f, KIND* s) { return f.WalkUpFrom##KIND(s); } \
  CONTRACT("finds_" #KIND) bool c_finds_##KIND(MissingBreakInSwitchStatementRule::FindingBreak& f, KIND* s) { REQUIRES(s != nullptr); return false; }
FINDS(BreakStmt)
FINDS(ReturnStmt)
FINDS(ContinueStmt)
FINDS(CXXThrowExpr)
FINDS(ObjCAtThrowStmt)
bool onlyFinds() { return Traversal<MissingBreakInSwitchStatementRule::FindingBreak, MissingBreakInSwitchStatementRule::FindingBreak, BreakStmt, ReturnStmt, ContinueStmt, CXXThrowExpr, ObjCAtThrowStmt>::standard; }
CONTRACT("onlyFinds") bool c_onlyFinds() { return true; }
bool label(NonCaseLabelInSwitchStatementRule::ExtractLabelStmts& e, LabelStmt* s) { return e.WalkUpFromLabelStmt(s); }
CONTRACT("label") bool c_label(NonCaseLabelInSwitchStatementRule::ExtractLabelStmts& e, LabelStmt* s) { REQUIRES(s != nullptr); e._labels->push_back(s); return true; }
bool onlyLabels() { return Traversal<NonCaseLabelInSwitchStatementRule::ExtractLabelStmts, NonCaseLabelInSwitchStatementRule::ExtractLabelStmts, LabelStmt>::standard; }
CONTRACT("onlyLabels") bool c_onlyLabels() { return true; }
