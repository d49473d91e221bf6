// S06: control flow.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s06.h"
#include "oclint-rules/lib/util/ASTUtil.cpp"
#define rules rules1
#include "oclint-rules/rules/basic/ReturnFromFinallyBlockRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/basic/ThrowExceptionFromFinallyBlockRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/basic/GotoStatementRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/basic/ForLoopShouldBeWhileLoopRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/basic/JumbledIncrementerRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/basic/CollapsibleIfStatementsRule.cpp"
#undef rules
#define rules rules7
#include "oclint-rules/rules/basic/DeadCodeRule.cpp"
#undef rules
#define rules rules8
#include "oclint-rules/rules/redundant/UnnecessaryElseStatementRule.cpp"
#undef rules
#define rules rules9
#include "oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp"
#undef rules
#define rules rules10
#include "oclint-rules/rules/convention/PreferEarlyExitRule.cpp"
#undef rules
#define rules rules11
#include "oclint-rules/rules/convention/ParameterReassignmentRule.cpp"
#undef rules
// clang's traversal calls the Visit function for every node under a node, in its order
ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_returns(ReturnFromFinallyBlockRule::ExtractReturnStmts& self, Stmt* s) { *self._returns = cppvc::concat(*self._returns, spec::returnsUnder(s)); return true; }
ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_throws(ThrowExceptionFromFinallyBlockRule::ExtractObjCAtThrowStmts& self, Stmt* s) { *self._throws = cppvc::concat(*self._throws, spec::throwsUnder(s)); return true; }
ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_raises(ThrowExceptionFromFinallyBlockRule::ExtractNSExceptionRaiser& self, Stmt* s) { *self._raisers = cppvc::concat(*self._raisers, spec::raisesUnder(s)); return true; }
ASSUME("clang::RecursiveASTVisitor::TraverseDecl") bool a_assigns(ParameterReassignmentRule::BinaryOperatorAnalyzer& self, Decl* d) { self._binaryOperators = cppvc::concat(self._binaryOperators, spec::assignmentsUnder(d, self._params)); return true; }
// clang's statement visitor calls the function for the statement's kind, or for the nearest kind it derives from
ASSUME("clang::StmtVisitorBase::Visit") EExitType a_exit(ExitTypeGetter& self, const Stmt* s) { return (EExitType)spec::exitOf(s); }

VISIT(ReturnFromFinallyBlockRule, ObjCAtFinallyStmt, returnInFinally)
ONLY(ReturnFromFinallyBlockRule, ObjCAtFinallyStmt)
VISIT(ThrowExceptionFromFinallyBlockRule, ObjCAtFinallyStmt, throwInFinally)
ONLY(ThrowExceptionFromFinallyBlockRule, ObjCAtFinallyStmt)
CONTRACT("GotoStatementRule::callback") void c_goto(GotoStatementRule& self, const ast_matchers::MatchFinder::MatchResult& result) { spec::gotoStatement(&self, result.Nodes.getNodeAs<GotoStmt>("gotoStmt")); }
VISIT(ForLoopShouldBeWhileLoopRule, ForStmt, forShouldBeWhile)
ONLY(ForLoopShouldBeWhileLoopRule, ForStmt)
VISIT(JumbledIncrementerRule, ForStmt, jumbledIncrementer)
ONLY(JumbledIncrementerRule, ForStmt)
VISIT(CollapsibleIfStatementsRule, IfStmt, collapsibleIf)
ONLY(CollapsibleIfStatementsRule, IfStmt)
VISIT(AvoidBranchingStatementAsLastInLoopRule, ForStmt, branchLastFor)
VISIT(AvoidBranchingStatementAsLastInLoopRule, ObjCForCollectionStmt, branchLastForIn)
VISIT(AvoidBranchingStatementAsLastInLoopRule, WhileStmt, branchLastWhile)
VISIT(AvoidBranchingStatementAsLastInLoopRule, DoStmt, branchLastDo)
ONLY(AvoidBranchingStatementAsLastInLoopRule, ForStmt, ObjCForCollectionStmt, WhileStmt, DoStmt)
VISIT(DeadCodeRule, CompoundStmt, deadCode)
ONLY(DeadCodeRule, CompoundStmt)
#define EXIT(KIND, BASE) CONTRACT("ExitTypeGetter::Visit" #BASE) EExitType c_exit##BASE(ExitTypeGetter& self, const KIND* s) { REQUIRES(s != nullptr); return (EExitType)spec::exitOf(s); }
EXIT(BreakStmt, BreakStmt)
EXIT(ContinueStmt, ContinueStmt)
EXIT(ReturnStmt, ReturnStmt)
EXIT(GotoStmt, GotoStmt)
EXIT(CXXThrowExpr, CXXThrowExpr)
EXIT(ObjCAtThrowStmt, ObjCAtThrowStmt)
EXIT(SwitchCase, SwitchCase)
EXIT(CompoundStmt, CompoundStmt)
EXIT(IfStmt, IfStmt)
CONTRACT("ExitTypeGetter::VisitStmt") EExitType c_exitStmt(ExitTypeGetter& self, const Stmt* s) { return NoExit; }
// an else-if is judged with the if it belongs to, which clang visits before it
CONTRACT("UnnecessaryElseStatementRule::areAllBranchesReturn") bool c_returns(UnnecessaryElseStatementRule& self, Stmt* s) { return spec::returns(s); }
bool unnecessaryElse(UnnecessaryElseStatementRule& rule, IfStmt* s) { return rule.WalkUpFromIfStmt(s); }
CONTRACT("unnecessaryElse") bool c_unnecessaryElse(UnnecessaryElseStatementRule& rule, IfStmt* s) {
  REQUIRES(s != nullptr);
  if (spec::listed(s, *rule._visitedIfStmt, 0)) return true;
  *rule._visitedIfStmt = cppvc::concat(*rule._visitedIfStmt, spec::chain(s));
  spec::unnecessaryElse(&rule, s);
  return true;
}
ONLY(UnnecessaryElseStatementRule, IfStmt)
// the limit is the one configured when the analysis of the file starts
#define LIMIT(KIND, SPEC) \
  bool SPEC(PreferEarlyExitRule& rule, KIND* s) { return rule.WalkUpFrom##KIND(s); } \
  CONTRACT(#SPEC) bool c_##SPEC(PreferEarlyExitRule& rule, KIND* s) { REQUIRES(s != nullptr); REQUIRES(rule._threshold == RuleConfiguration::intForKey("MAXIMUM_IF_LENGTH", 15)); spec::SPEC(&rule, s); return true; }
LIMIT(CompoundStmt, longIfBeforeExit)
LIMIT(ForStmt, longIfFor)
LIMIT(WhileStmt, longIfWhile)
LIMIT(DoStmt, longIfDo)
CONTRACT("PreferEarlyExitRule::setUp") void c_setUp(PreferEarlyExitRule& rule) { rule._threshold = RuleConfiguration::intForKey("MAXIMUM_IF_LENGTH", 15); }
ONLY(PreferEarlyExitRule, CompoundStmt, ForStmt, WhileStmt, DoStmt)
VISIT(ParameterReassignmentRule, FunctionDecl, reassignedInFunction)
VISIT(ParameterReassignmentRule, ObjCMethodDecl, reassignedInMethod)
ONLY(ParameterReassignmentRule, FunctionDecl, ObjCMethodDecl)
// one node for the inner traversals
#define INNER(OWNER, KIND, NAME, WHAT) \
  bool NAME(OWNER& e, KIND* s) { return e.WalkUpFrom##KIND(s); } \
  CONTRACT(#NAME) bool c_##NAME(OWNER& e, KIND* s) { REQUIRES(s != nullptr); WHAT; return true; } \
  bool only_##NAME() { return Traversal<OWNER, OWNER, KIND>::standard; } \
  CONTRACT("only_" #NAME) bool c_only_##NAME() { return true; }
INNER(ReturnFromFinallyBlockRule::ExtractReturnStmts, ReturnStmt, innerReturn, e._returns->push_back(s))
INNER(ThrowExceptionFromFinallyBlockRule::ExtractObjCAtThrowStmts, ObjCAtThrowStmt, innerThrow, e._throws->push_back(s))
INNER(ThrowExceptionFromFinallyBlockRule::ExtractNSExceptionRaiser, ObjCMessageExpr, innerRaise, if (spec::raises(s)) e._raisers->push_back(s))
INNER(ParameterReassignmentRule::BinaryOperatorAnalyzer, BinaryOperator, innerAssign, if (spec::assigns(s, e._params)) e._binaryOperators.push_back(s))
