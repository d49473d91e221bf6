// S09: Objective-C rules.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s09.h"
#include "oclint-rules/lib/util/ASTUtil.cpp"
#include "oclint-rules/lib/util/StdUtil.cpp"
#define rules rules1
#include "oclint-rules/rules/cocoa/ObjCVerifyIsEqualHashRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/cocoa/ObjCVerifyProhibitedCallRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/cocoa/ObjCVerifySubclassMustImplementRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/migration/ObjCBoxedExpressionsRule.cpp"
#undef rules
#define rules rules7
#include "oclint-rules/rules/migration/ObjCContainerLiteralsRule.cpp"
#undef rules
#define rules rules8
#include "oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp"
#undef rules
#define rules rules9
#include "oclint-rules/rules/migration/ObjCObjectSubscriptingRule.cpp"
#undef rules
#define rules rules10
#include "oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp"
#undef rules
// annotations (decided in F03); clang's own list of overridden methods
ASSUME("declHasEnforceAttribute") bool a_enforced(const Decl* d, const oclint::RuleBase& rule, std::string* comment) {
  if (comment && spec::enforced(d, &rule)) *comment = spec::comment(d, &rule);
  return spec::enforced(d, &rule);
}
ASSUME("clang::ObjCMethodDecl::getOverriddenMethods") void a_overridden(const ObjCMethodDecl& self, SmallVectorImpl<const ObjCMethodDecl*>& v) { cppvc::become(v, spec::overriddenBy(&self)); }
// clang's traversal reaches every node below
ASSUME("clang::RecursiveASTVisitor::TraverseDecl") bool a_under1(ContainsCallToSuperMethod& self, Decl* d) { self._foundSuperCall = self._foundSuperCall || spec::superCallUnder(d, self._selector); return true; }
ASSUME("clang::RecursiveASTVisitor::TraverseDecl") bool a_under2(CheckMethodsInsideClass& self, Decl* d) { self._violations = cppvc::concat(self._violations, spec::outsideUnder(d, &self._container, &self._rule)); return true; }
ASSUME("clang::RecursiveASTVisitor::TraverseStmt") bool a_under3(ContainsIvarFetch& self, Stmt* s) { self._instances = cppvc::concat(self._instances, spec::ivarsUnder(s)); return true; }
ASSUME("clang::RecursiveASTVisitor::TraverseDecl") bool a_under4(ContainsBinaryOperatorWithIvarAssignment& self, Decl* d) { self._instances = cppvc::concat(self._instances, spec::assignedUnder(d)); return true; }
#define INNER(OWNER, KIND, NAME, WHAT) \
  bool NAME(OWNER& e, KIND* s) { return e.WalkUpFrom##KIND(s); } \
  CONTRACT(#NAME) bool c_##NAME(OWNER& e, KIND* s) { REQUIRES(s != nullptr); WHAT; return true; } \
  bool only_##NAME() { return Traversal<OWNER, OWNER, KIND>::standard; } \
  CONTRACT("only_" #NAME) bool c_only_##NAME() { return true; }
INNER(ContainsCallToSuperMethod, ObjCMessageExpr, innerSuper, if (spec::callsSuper(s, e._selector)) e._foundSuperCall = true)
INNER(CheckMethodsInsideClass, ObjCMessageExpr, innerOutside, if (spec::outside(s, &e._container, &e._rule)) e._violations.push_back(s))
INNER(ContainsIvarFetch, ObjCIvarRefExpr, innerIvar, e._instances.push_back(s))
INNER(ContainsBinaryOperatorWithIvarAssignment, BinaryOperator, innerAssign, if (s->isAssignmentOp()) e._instances = cppvc::concat(e._instances, spec::ivarsUnder(s->getLHS())))
VISIT(ObjCVerifyIsEqualHashRule, ObjCImplementationDecl, missingHash)
ONLY(ObjCVerifyIsEqualHashRule, ObjCImplementationDecl)
CONTRACT("ObjCVerifyMustCallSuperRule::declRequiresSuperCall") bool c_requires(ObjCVerifyMustCallSuperRule& self, ObjCMethodDecl* m) { REQUIRES(m != nullptr); return spec::mustCallSuper(&self, m); }
VISIT(ObjCVerifyMustCallSuperRule, ObjCMethodDecl, callSuper)
ONLY(ObjCVerifyMustCallSuperRule, ObjCMethodDecl)
VISIT(ObjCVerifyProhibitedCallRule, CallExpr, prohibitedFunction)
VISIT(ObjCVerifyProhibitedCallRule, ObjCMessageExpr, prohibitedMethod)
CONTRACT("isObjCInterfaceClassOrSubclass") bool c_within(const ObjCInterfaceDecl* c, const std::string& name) { return spec::within(c, name); }
VISIT(ObjCVerifyProtectedMethodRule, ObjCImplementationDecl, protectedMethods)
ONLY(ObjCVerifyProtectedMethodRule, ObjCImplementationDecl)
VISIT(ObjCVerifySubclassMustImplementRule, ObjCImplementationDecl, abstractMethods)
ONLY(ObjCVerifySubclassMustImplementRule, ObjCImplementationDecl)
VISIT(ObjCBoxedExpressionsRule, ObjCMessageExpr, boxed)
ONLY(ObjCBoxedExpressionsRule, ObjCMessageExpr)
VISIT(ObjCNSNumberLiteralsRule, ObjCMessageExpr, numberLiteral)
ONLY(ObjCNSNumberLiteralsRule, ObjCMessageExpr)
VISIT(ObjCContainerLiteralsRule, ObjCMessageExpr, containerLiteral)
ONLY(ObjCContainerLiteralsRule, ObjCMessageExpr)
VISIT(ObjCObjectSubscriptingRule, ObjCMessageExpr, subscripting)
ONLY(ObjCObjectSubscriptingRule, ObjCMessageExpr)
CONTRACT("removeUnderscores") std::string c_bare(std::string s) { return spec::bare(s); }
CONTRACT("capitalizeFirstLetter") std::string c_capital(std::string s) { return spec::capital(s); }
VISIT(ObjCAssignIvarOutsideAccessorsRule, ObjCMethodDecl, assignIvar)
ONLY(ObjCAssignIvarOutsideAccessorsRule, ObjCMethodDecl)
