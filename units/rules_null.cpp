// S03: null checks.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s03.h"
#define rules rules1
#include "oclint-rules/rules/basic/BrokenNullCheckRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/basic/MisplacedNullCheckRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/redundant/RedundantNilCheckRule.cpp"
#undef rules
typedef AbstractNullCheckRule<BrokenNullCheckBaseRule> Broken;
typedef AbstractNullCheckRule<MisplacedNullCheckBaseRule> Misplaced;
typedef AbstractNullCheckRule<RedundantNilCheckRule> Redundant;
// clang's traversal stops at the first node for which the Visit function says no
#define SEEK(BASE, WHAT, HOW) ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_##BASE##WHAT(BASE::WHAT& self, Stmt* s) { return !spec::HOW(self._variable, (Expr*)s); }
SEEK(Broken, VariableOfInterestInMemberExpr, dereferenced)
SEEK(Misplaced, VariableOfInterestInMemberExpr, dereferenced)
SEEK(Broken, VariableOfInterestInObjCMessageExpr, messaged)
SEEK(Misplaced, VariableOfInterestInObjCMessageExpr, messaged)
SEEK(Redundant, VariableOfInterestInObjCMessageExpr, messaged)
#define VARIABLE(BASE) CONTRACT("AbstractNullCheckRule<class " #BASE ">::extractDeclFromImplicitCastExpr") ValueDecl* c_variable##BASE(AbstractNullCheckRule<BASE>& self, ImplicitCastExpr* e) { return spec::variable(e); }
VARIABLE(BrokenNullCheckBaseRule)
VARIABLE(MisplacedNullCheckBaseRule)
VARIABLE(RedundantNilCheckRule)
VISIT(BrokenNullCheckRule, BinaryOperator, brokenNull)
ONLY_OF(BrokenNullCheckRule, BrokenNullCheckBaseRule, BinaryOperator)
VISIT(BrokenNilCheckRule, BinaryOperator, brokenNil)
ONLY_OF(BrokenNilCheckRule, BrokenNullCheckBaseRule, BinaryOperator)
VISIT(MisplacedNullCheckRule, BinaryOperator, misplacedNull)
ONLY_OF(MisplacedNullCheckRule, MisplacedNullCheckBaseRule, BinaryOperator)
VISIT(MisplacedNilCheckRule, BinaryOperator, misplacedNil)
ONLY_OF(MisplacedNilCheckRule, MisplacedNullCheckBaseRule, BinaryOperator)
VISIT(RedundantNilCheckRule, BinaryOperator, redundantNil)
ONLY(RedundantNilCheckRule, BinaryOperator)
#define INNER(OWNER, KIND, NAME, WHAT) \
  bool NAME(OWNER& e, KIND* s) { return e.WalkUpFrom##KIND(s); } \
  CONTRACT(#NAME) bool c_##NAME(OWNER& e, KIND* s) { REQUIRES(s != nullptr); REQUIRES(e._variable != nullptr); return !spec::WHAT(e._variable, s); } \
  bool only_##NAME() { return Traversal<OWNER, OWNER, KIND>::standard; } \
  CONTRACT("only_" #NAME) bool c_only_##NAME() { return true; }
INNER(Broken::VariableOfInterestInMemberExpr, MemberExpr, brokenMember, reaches)
INNER(Misplaced::VariableOfInterestInMemberExpr, MemberExpr, misplacedMember, reaches)
INNER(Broken::VariableOfInterestInObjCMessageExpr, ObjCMessageExpr, brokenMessage, sends)
INNER(Misplaced::VariableOfInterestInObjCMessageExpr, ObjCMessageExpr, misplacedMessage, sends)
INNER(Redundant::VariableOfInterestInObjCMessageExpr, ObjCMessageExpr, redundantMessage, sends)
