// S08: class design.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s08.h"
#define rules rules1
#define getMessageViolation getMessageViolation1
#include "oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp"
#undef rules
#undef getMessageViolation
#define rules rules2
#include "oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/design/AvoidPrivateStaticMembersRule.cpp"
#undef rules
bool virtualClass(DestructorOfVirtualClassRule& rule, CXXRecordDecl* s) { return rule.WalkUpFromCXXRecordDecl(s); }
CONTRACT("virtualClass") bool c_virtualClass(DestructorOfVirtualClassRule& rule, CXXRecordDecl* s) { REQUIRES(s != nullptr); spec::virtualClass(&rule, s); return true; }
CONTRACT("BaseClassDestructorShouldBeVirtualOrProtectedRule::check") RANGE(1, 2, "clang::CXXRecordDecl::bases_begin")
void c_check(BaseClassDestructorShouldBeVirtualOrProtectedRule& self, const CXXRecordDecl& child, CXXRecordDecl::base_class_const_iterator b, CXXRecordDecl::base_class_const_iterator e) {
  const CXXRecordDecl* c = cppvc::owner<CXXRecordDecl>(b);
  REQUIRES(b == c->bases_begin());
  spec::report(spec::unsafeBases(&self, &child, c, (int)(e - b)));
}
bool baseDestructor(BaseClassDestructorShouldBeVirtualOrProtectedRule& rule, CXXRecordDecl* s) { return rule.WalkUpFromCXXRecordDecl(s); }
CONTRACT("baseDestructor") bool c_baseDestructor(BaseClassDestructorShouldBeVirtualOrProtectedRule& rule, CXXRecordDecl* s) { REQUIRES(s != nullptr); spec::baseDestructor(&rule, s); return true; }
// what a match says: the node bound to a name, if it is of that kind
CONTRACT("AvoidDefaultArgumentsOnVirtualMethodsRule::callback") void c_callback1(AvoidDefaultArgumentsOnVirtualMethodsRule& self, const MatchFinder::MatchResult& m) {
  spec::report(&self, m.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod"));
}
CONTRACT("AvoidPrivateStaticMembersRule::callback") void c_callback2(AvoidPrivateStaticMembersRule& self, const MatchFinder::MatchResult& m) {
  spec::report(&self, m.Nodes.getNodeAs<VarDecl>("field"));
  spec::report(&self, m.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod"));
}
ONLY(DestructorOfVirtualClassRule, CXXRecordDecl)
ONLY(BaseClassDestructorShouldBeVirtualOrProtectedRule, CXXRecordDecl)
// the rules' own matchers
#define MATCHES(NAME, NODE, EXPR) \
  CONTRACT("clang::ast_matchers::internal::matcher_" #NAME "Matcher::matches") \
  bool c_##NAME(clang::ast_matchers::internal::matcher_##NAME##Matcher& self, const NODE& n, clang::ast_matchers::internal::ASTMatchFinder* f, clang::ast_matchers::internal::BoundNodesTreeBuilder* b) { return EXPR; }
MATCHES(hasDefaultArg, ParmVarDecl, n.hasDefaultArg())
MATCHES(isStaticDataMember, VarDecl, n.isStaticDataMember())
MATCHES(isStatic, CXXMethodDecl, n.isStatic())
