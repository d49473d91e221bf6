// S05: expressions and redundancy.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s05.h"
#include "oclint-rules/lib/util/ASTUtil.cpp"
#define rules rules1
#include "oclint-rules/rules/basic/BitwiseOperatorInConditionalRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/basic/BrokenOddnessCheckRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/basic/ConstantIfExpressionRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/basic/DoubleNegativeRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp"
#undef rules
#define rules rules7
#include "oclint-rules/rules/convention/InvertedLogicRule.cpp"
#undef rules
#define rules rules8
#include "oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp"
#undef rules
#define rules rules9
#include "oclint-rules/rules/redundant/RedundantIfStatementRule.cpp"
#undef rules
#define rules rules10
#include "oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp"
#undef rules
#define rules rules11
#include "oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp"
#undef rules
#define rules rules12
#include "oclint-rules/rules/redundant/UselessParenthesesRule.cpp"
#undef rules
// clang's fingerprints tell expressions that are written alike
ASSUME("areSameExpr") bool a_same(ASTContext& c, const Expr& a, const Expr& b) { return spec::same(c, &a, &b); }
CONTRACT("isANullPointerExpr") bool c_null(const Expr& e) { return spec::nullPointer(&e); }
CONTRACT("ignoreCastExpr") const Expr* c_stripped(const Expr& e) { return spec::stripped(&e); }

CONTRACT("BitwiseOperatorInConditionalRule::callback") void c_bitwise(BitwiseOperatorInConditionalRule& self, const ast_matchers::MatchFinder::MatchResult& result) {
  spec::bitwise(&self, result.Nodes.getNodeAs<IfStmt>("ifStmt"), result.Nodes.getNodeAs<WhileStmt>("whileStmt"), result.Nodes.getNodeAs<DoStmt>("doStmt"), result.Nodes.getNodeAs<ConditionalOperator>("conditionalOperator"));
}
VISIT(BrokenOddnessCheckRule, BinaryOperator, brokenOddness)
ONLY(BrokenOddnessCheckRule, BinaryOperator)
VISIT(ConstantConditionalOperatorRule, ConditionalOperator, constantConditional)
ONLY(ConstantConditionalOperatorRule, ConditionalOperator)
VISIT(ConstantIfExpressionRule, IfStmt, constantIf)
ONLY(ConstantIfExpressionRule, IfStmt)
VISIT(DoubleNegativeRule, UnaryOperator, doubleNegative)
ONLY(DoubleNegativeRule, UnaryOperator)
VISIT(MultipleUnaryOperatorRule, UnaryOperator, multipleUnary)
ONLY(MultipleUnaryOperatorRule, UnaryOperator)
VISIT(InvertedLogicRule, IfStmt, invertedIf)
VISIT(InvertedLogicRule, ConditionalOperator, invertedConditional)
ONLY(InvertedLogicRule, IfStmt, ConditionalOperator)
VISIT(RedundantConditionalOperatorRule, ConditionalOperator, redundantConditional)
ONLY(RedundantConditionalOperatorRule, ConditionalOperator)
CONTRACT("RedundantIfStatementRule::extractStmt") ReturnStmt* c_onlyReturn(RedundantIfStatementRule& self, Stmt* s) { return dyn_cast_or_null<ReturnStmt>(spec::only(s)); }
CONTRACT("RedundantIfStatementRule::extractStmt") BinaryOperator* c_onlyAssign(RedundantIfStatementRule& self, Stmt* s) { return dyn_cast_or_null<BinaryOperator>(spec::only(s)); }
VISIT(RedundantIfStatementRule, IfStmt, redundantIf)
ONLY(RedundantIfStatementRule, IfStmt)
VISIT(RedundantLocalVariableRule, CompoundStmt, redundantLocal)
ONLY(RedundantLocalVariableRule, CompoundStmt)
VISIT(UnnecessaryNullCheckForCXXDeallocRule, IfStmt, nullCheckBeforeDelete)
ONLY(UnnecessaryNullCheckForCXXDeallocRule, IfStmt)
VISIT(UselessParenthesesRule, IfStmt, uselessInIf)
VISIT(UselessParenthesesRule, ReturnStmt, uselessInReturn)
VISIT(UselessParenthesesRule, VarDecl, uselessInVar)
ONLY(UselessParenthesesRule, IfStmt, ReturnStmt, VarDecl)
