// What the units about rules share.
#ifndef UNITS_RULES_H
#define UNITS_RULES_H
#include "cppvc.h"
#include <type_traits>
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/RuleSet.h"
#include "specs/common.h"
namespace spec { std::vector<Report> reports; }
// a rule reports by calling addViolation (decided in F02 and F04: what becomes of a report)
ASSUME("oclint::AbstractASTRuleBase::addViolation")
void a_violation_decl(oclint::AbstractASTRuleBase& self, const clang::Decl* d, oclint::RuleBase* rule, const std::string& m) { spec::report(rule, d, m); }
ASSUME("oclint::AbstractASTRuleBase::addViolation")
void a_violation_stmt(oclint::AbstractASTRuleBase& self, const clang::Stmt* s, oclint::RuleBase* rule, const std::string& m) { spec::report(rule, s, m); }
// The rule's Visit functions, called the way clang's traversal calls them, once for each node of the kind:
// they report what the specification says and let the traversal go on.
#define VISIT(RULE, KIND, SPEC) \
  bool SPEC(RULE& rule, clang::KIND* s) { return rule.WalkUpFrom##KIND(s); } \
  CONTRACT(#SPEC) bool c_##SPEC(RULE& rule, clang::KIND* s) { REQUIRES(s != nullptr); spec::SPEC(&rule, s); return true; }
// The traversal is clang's own and no node of another kind makes the rule do anything.
template <class R, class V, class... K> struct Traversal {
  typedef clang::RecursiveASTVisitor<V> Base;
  template <class X> static constexpr bool listed = (std::is_same<X, K>::value || ...);
  enum { standard = true
#define STMT(X, P) && (listed<clang::X> || std::is_same<decltype(&R::Visit##X), bool (Base::*)(clang::X*)>::value) && std::is_same<decltype(&R::WalkUpFrom##X), bool (Base::*)(clang::X*)>::value
#define ABSTRACT_STMT(X) X
#include "clang/AST/StmtNodes.inc"
#undef STMT
#undef ABSTRACT_STMT
#define ABSTRACT_STMT(X)
#define STMT(X, P) && std::is_same<decltype(&R::Traverse##X), bool (Base::*)(clang::X*, typename Base::DataRecursionQueue*)>::value
#include "clang/AST/StmtNodes.inc"
#define ABSTRACT_DECL(X) X
#define DECL(X, P) && (listed<clang::X##Decl> || std::is_same<decltype(&R::Visit##X##Decl), bool (Base::*)(clang::X##Decl*)>::value) && std::is_same<decltype(&R::WalkUpFrom##X##Decl), bool (Base::*)(clang::X##Decl*)>::value
#include "clang/AST/DeclNodes.inc"
#define ABSTRACT_DECL(X)
#define DECL(X, P) && std::is_same<decltype(&R::Traverse##X##Decl), bool (Base::*)(clang::X##Decl*)>::value
#include "clang/AST/DeclNodes.inc"
    && std::is_same<decltype(&R::VisitStmt), bool (Base::*)(clang::Stmt*)>::value && std::is_same<decltype(&R::VisitDecl), bool (Base::*)(clang::Decl*)>::value
    && std::is_same<decltype(&R::WalkUpFromStmt), bool (Base::*)(clang::Stmt*)>::value && std::is_same<decltype(&R::WalkUpFromDecl), bool (Base::*)(clang::Decl*)>::value
    && std::is_same<decltype(&R::TraverseDecl), bool (Base::*)(clang::Decl*)>::value && std::is_same<decltype(&R::TraverseStmt), bool (Base::*)(clang::Stmt*, typename Base::DataRecursionQueue*)>::value
    && std::is_same<decltype(&R::dataTraverseStmtPre), bool (Base::*)(clang::Stmt*)>::value && std::is_same<decltype(&R::dataTraverseStmtPost), bool (Base::*)(clang::Stmt*)>::value
    && std::is_same<decltype(&R::TraverseType), bool (Base::*)(clang::QualType)>::value && std::is_same<decltype(&R::shouldVisitImplicitCode), bool (Base::*)() const>::value
    && std::is_same<decltype(&R::shouldVisitTemplateInstantiations), bool (Base::*)() const>::value && std::is_same<decltype(&R::shouldTraversePostOrder), bool (Base::*)() const>::value
    && std::is_same<decltype(&R::shouldVisitLambdaBody), bool (Base::*)() const>::value };
};
#define ONLY(RULE, ...) \
  bool only_##RULE() { return Traversal<RULE, RULE, __VA_ARGS__>::standard; } \
  CONTRACT("only_" #RULE) bool c_only_##RULE() { return true; }
// a rule that gets its Visit functions from a base class
#define ONLY_OF(RULE, BASE, ...) \
  bool only_##RULE() { return Traversal<RULE, BASE, __VA_ARGS__>::standard; } \
  CONTRACT("only_" #RULE) bool c_only_##RULE() { return true; }
#endif
