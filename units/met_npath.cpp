// M02: NPath complexity.
// cppvc: depth=1
#include "cppvc.h"
#include "oclint-metrics/lib/NPathComplexityMetric.cpp"
using namespace clang;
namespace spec {
inline int atMost(long long n) { return n > 2147483647LL ? 2147483647 : (int)n; }
int paths(Stmt* s);
int operators(Expr* e);
// product over the first n statements
LOGIC int product(CompoundStmt* s, int n) {
  if (n <= 0) return 1;
  return atMost(1LL * product(s, n - 1) * paths(s->body_begin()[n - 1]));
}
// the part of a switch body from its last label among the first n statements on
LOGIC int lastPart(CompoundStmt* s, int n) {
  if (n <= 0) return 0;
  if (isa<SwitchCase>(s->body_begin()[n - 1])) return paths(s->body_begin()[n - 1]);
  return atMost(1LL * lastPart(s, n - 1) * paths(s->body_begin()[n - 1]));
}
// the parts before it, and the condition
LOGIC int earlierParts(CompoundStmt* s, int n, int cond) {
  if (n <= 0) return cond;
  if (isa<SwitchCase>(s->body_begin()[n - 1])) return atMost(0LL + earlierParts(s, n - 1, cond) + lastPart(s, n - 1));
  return earlierParts(s, n - 1, cond);
}
inline int switchPaths(SwitchStmt* s) {
  CompoundStmt* b = dyn_cast<CompoundStmt>(s->getBody());
  if (b == nullptr) return atMost(0LL + operators(s->getCond()) + paths(s->getBody()));
  return atMost(0LL + earlierParts(b, b->size(), operators(s->getCond())) + lastPart(b, b->size()));
}
LOGIC int paths(Stmt* s) {
  if (s == nullptr) return 1;
  if (CompoundStmt* c = dyn_cast<CompoundStmt>(s)) return product(c, c->size());
  if (IfStmt* i = dyn_cast<IfStmt>(s)) return atMost(0LL + operators(i->getCond()) + paths(i->getThen()) + (i->getElse() ? paths(i->getElse()) : 1));
  if (WhileStmt* w = dyn_cast<WhileStmt>(s)) return atMost(0LL + operators(w->getCond()) + paths(w->getBody()) + 1);
  if (DoStmt* d = dyn_cast<DoStmt>(s)) return atMost(0LL + operators(d->getCond()) + paths(d->getBody()) + 1);
  if (ForStmt* f = dyn_cast<ForStmt>(s)) return atMost(0LL + paths(f->getInit()) + operators(f->getCond()) + operators(f->getInc()) + paths(f->getBody()) + 1);
  if (SwitchStmt* w = dyn_cast<SwitchStmt>(s)) return switchPaths(w);
  if (SwitchCase* c = dyn_cast<SwitchCase>(s)) return paths(c->getSubStmt());
  if (ObjCForCollectionStmt* f = dyn_cast<ObjCForCollectionStmt>(s)) return atMost(0LL + paths(f->getBody()) + 2);
  return 1;
}
LOGIC int operators(Expr* e) {
  if (e == nullptr) return 0;
  if (ConditionalOperator* c = dyn_cast<ConditionalOperator>(e)) return operators(c->getCond()) + operators(c->getTrueExpr()) + operators(c->getFalseExpr()) + 2;
  if (BinaryOperator* b = dyn_cast<BinaryOperator>(e)) {
    if (b->getOpcode() == BO_LAnd || b->getOpcode() == BO_LOr) return 1 + operators(b->getLHS()) + operators(b->getRHS());
    return 0;
  }
  if (ParenExpr* p = dyn_cast<ParenExpr>(e)) return operators(p->getSubExpr());
  if (CastExpr* c = dyn_cast<CastExpr>(e)) return operators(c->getSubExpr());
  return 0;
}
}
using namespace spec;
CONTRACT("oclint::NPathComplexityMetric::nPath") int c_stmt(oclint::NPathComplexityMetric& self, Stmt* s) { return paths(s); }
CONTRACT("oclint::NPathComplexityMetric::nPath") int c_expr(oclint::NPathComplexityMetric& self, Expr* s) { return operators(s); }
#define KIND(K) CONTRACT("oclint::NPathComplexityMetric::nPath") int c_##K(oclint::NPathComplexityMetric& self, K* s) { REQUIRES(s != nullptr); return paths(s); }
#define EKIND(K) CONTRACT("oclint::NPathComplexityMetric::nPath") int c_##K(oclint::NPathComplexityMetric& self, K* s) { REQUIRES(s != nullptr); return operators(s); }
KIND(CompoundStmt) KIND(IfStmt) KIND(WhileStmt) KIND(DoStmt) KIND(ForStmt) KIND(ObjCForCollectionStmt) KIND(SwitchStmt) KIND(SwitchCase)
EKIND(ConditionalOperator) EKIND(BinaryOperator) EKIND(ParenExpr) EKIND(CastExpr)
CONTRACT("getNPathComplexity") int c_get(Stmt* s) { return paths(s); }
