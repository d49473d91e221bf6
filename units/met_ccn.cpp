// M01: cyclomatic complexity.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "cppvc.h"
#include "oclint-metrics/lib/CyclomaticComplexityMetric.cpp"
using namespace clang;
typedef oclint::CyclomaticComplexityMetric Metric;
namespace spec {
// what a statement, expression or clause adds by itself
inline int weight(Stmt* s) {
  if (isa<IfStmt>(s) || isa<ForStmt>(s) || isa<ObjCForCollectionStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CaseStmt>(s)) return 1;
  if (isa<CXXCatchStmt>(s) || isa<ObjCAtCatchStmt>(s) || isa<ConditionalOperator>(s)) return 1;
  if (BinaryOperator* b = dyn_cast<BinaryOperator>(s)) return b->getOpcode() == BO_LAnd || b->getOpcode() == BO_LOr ? 1 : 0;
  return 0;
}
int weightsUnder(Decl* d);
}
// clang's traversal calls WalkUpFrom once for every node under a declaration; the sum of what the calls add
ASSUME("clang::RecursiveASTVisitor::TraverseDecl") bool a_traverse(Metric& self, Decl* d) { self._count += spec::weightsUnder(d); return true; }
CONTRACT("oclint::CyclomaticComplexityMetric::calculate") int c_calculate(Metric& self, Decl* d) { self._count = spec::weightsUnder(d); return spec::weightsUnder(d) + 1; }
CONTRACT("getCyclomaticComplexity") int c_get(Decl* d) { return spec::weightsUnder(d) + 1; }
// one node of every kind: clang's real WalkUpFrom functions, and through them the real Visit functions
#define ABSTRACT_STMT(X)
#define STMT(K, P) \
  bool node_##K(Metric& m, K* s) { return m.WalkUpFrom##K(s); } \
  CONTRACT("node_" #K) bool c_node_##K(Metric& m, K* s) { REQUIRES(s != nullptr); m._count += spec::weight(s); return true; }
#include "clang/AST/StmtNodes.inc"
#define ABSTRACT_DECL(X)
#define DECL(K, P) \
  bool node_##K(Metric& m, K##Decl* s) { return m.WalkUpFrom##K##Decl(s); } \
  CONTRACT("node_" #K) bool c_node_##K(Metric& m, K##Decl* s) { REQUIRES(s != nullptr); return true; }
#include "clang/AST/DeclNodes.inc"
// only what is written is visited, in no special order
bool flags(Metric& m) { return m.shouldVisitImplicitCode() || m.shouldVisitTemplateInstantiations() || m.shouldTraversePostOrder() || !m.shouldVisitLambdaBody(); }
CONTRACT("flags") bool c_flags(Metric& m) { return false; }
// the traversal is clang's own: the class replaces none of its Traverse functions
typedef RecursiveASTVisitor<Metric> Base;
enum { allInherited = true
#define ABSTRACT_STMT(X)
#define STMT(K, P) && std::is_same<decltype(&Metric::Traverse##K), bool (Base::*)(K*, Base::DataRecursionQueue*)>::value
#include "clang/AST/StmtNodes.inc"
#define ABSTRACT_DECL(X)
#define DECL(K, P) && std::is_same<decltype(&Metric::Traverse##K##Decl), bool (Base::*)(K##Decl*)>::value
#include "clang/AST/DeclNodes.inc"
    && std::is_same<decltype(&Metric::TraverseDecl), bool (Base::*)(Decl*)>::value && std::is_same<decltype(&Metric::TraverseStmt), bool (Base::*)(Stmt*, Base::DataRecursionQueue*)>::value
    && std::is_same<decltype(&Metric::dataTraverseStmtPre), bool (Base::*)(Stmt*)>::value && std::is_same<decltype(&Metric::TraverseType), bool (Base::*)(QualType)>::value };
bool inherited() { return allInherited; }
CONTRACT("inherited") bool c_inherited() { return true; }
