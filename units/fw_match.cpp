// F01: rules built on syntax-tree matching get every node their visitor sees.
// cppvc: user /usr/lib/llvm-20/include/clang/ASTMatchers/ASTMatchFinder.h#match
#include "cppvc.h"
#include <clang/AST/AST.h>
#include "oclint-core/lib/RuleCarrier.cpp"
#include "oclint-rules/lib/AbstractASTMatcherRule.cpp"
using namespace oclint;
namespace spec {
// a node handed to the matchers, a match handed to the rule
struct Look { const void* finder; clang::DynTypedNode node; clang::ASTContext* context; };
std::vector<Look> looks;
std::vector<clang::ast_matchers::MatchFinder::MatchResult> calls;
inline void look(clang::ast_matchers::MatchFinder* f, const clang::DynTypedNode& n, clang::ASTContext* c) { Look e; e.finder = f; e.node = n; e.context = c; looks.push_back(e); }
}
using namespace spec;
using clang::ast_matchers::MatchFinder;
ASSUME("clang::ast_matchers::MatchFinder::match") void a_match(MatchFinder& self, const clang::DynTypedNode& n, clang::ASTContext& c) { look(&self, n, &c); }
ASSUME("oclint::AbstractASTMatcherRule::callback") void a_callback(AbstractASTMatcherRule& self, const MatchFinder::MatchResult& r) { calls.push_back(r); }
CONTRACT("oclint::AbstractASTMatcherRule::VisitDecl")
bool c_decl(AbstractASTMatcherRule& self, clang::Decl* d) { REQUIRES(d != nullptr && self._finder != nullptr); look(self._finder, clang::DynTypedNode::create(*d), self._carrier->_astContext); return true; }
CONTRACT("oclint::AbstractASTMatcherRule::VisitStmt")
bool c_stmt(AbstractASTMatcherRule& self, clang::Stmt* s) { REQUIRES(s != nullptr && self._finder != nullptr); look(self._finder, clang::DynTypedNode::create(*s), self._carrier->_astContext); return true; }
CONTRACT("oclint::AbstractASTMatcherRule::run")
void c_run(AbstractASTMatcherRule& self, const MatchFinder::MatchResult& r) { calls.push_back(r); }
CONTRACT("oclint::AbstractASTMatcherRule::tearDown")
void c_tearDown(AbstractASTMatcherRule& self) { self._finder = nullptr; }
