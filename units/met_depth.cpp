// M04: block depth.
// cppvc: depth=1
#include "cppvc.h"
#include "oclint-metrics/lib/StmtDepthMetric.cpp"
using namespace clang;
namespace spec {
inline int larger(int a, int b) { return a > b ? a : b; }
int deep(Stmt* s);
LOGIC int deepest(CompoundStmt* s, int n) {
  if (n <= 0) return 0;
  return larger(deepest(s, n - 1), deep(s->body_begin()[n - 1]));
}
LOGIC int handlers(CXXTryStmt* s, int n) {
  if (n <= 0) return deep(s->getTryBlock());
  return larger(handlers(s, n - 1), deep(s->getHandler(n - 1)));
}
LOGIC int catches(ObjCAtTryStmt* s, int n) {
  if (n <= 0) return deep(s->getTryBody());
  return larger(catches(s, n - 1), deep(s->getCatchStmt(n - 1)));
}
LOGIC int deep(Stmt* s) {
  if (s == nullptr) return 0;
  if (CompoundStmt* c = dyn_cast<CompoundStmt>(s)) return 1 + deepest(c, c->size());
  if (IfStmt* i = dyn_cast<IfStmt>(s)) return larger(deep(i->getThen()), i->getElse() ? deep(i->getElse()) : 0);
  if (WhileStmt* w = dyn_cast<WhileStmt>(s)) return deep(w->getBody());
  if (DoStmt* d = dyn_cast<DoStmt>(s)) return deep(d->getBody());
  if (ForStmt* f = dyn_cast<ForStmt>(s)) return deep(f->getBody());
  if (ObjCForCollectionStmt* f = dyn_cast<ObjCForCollectionStmt>(s)) return deep(f->getBody());
  if (SwitchStmt* w = dyn_cast<SwitchStmt>(s)) return deep(w->getBody());
  if (SwitchCase* c = dyn_cast<SwitchCase>(s)) return deep(c->getSubStmt());
  if (CXXTryStmt* t = dyn_cast<CXXTryStmt>(s)) return handlers(t, t->getNumHandlers());
  if (CXXCatchStmt* c = dyn_cast<CXXCatchStmt>(s)) return deep(c->getHandlerBlock());
  if (ObjCAtTryStmt* t = dyn_cast<ObjCAtTryStmt>(s)) return larger(catches(t, t->getNumCatchStmts()), t->getFinallyStmt() ? deep(t->getFinallyStmt()) : 0);
  if (ObjCAtCatchStmt* c = dyn_cast<ObjCAtCatchStmt>(s)) return deep(c->getCatchBody());
  if (ObjCAtFinallyStmt* f = dyn_cast<ObjCAtFinallyStmt>(s)) return deep(f->getFinallyBody());
  if (ObjCAtSynchronizedStmt* y = dyn_cast<ObjCAtSynchronizedStmt>(s)) return deep(y->getSynchBody());
  if (ObjCAutoreleasePoolStmt* p = dyn_cast<ObjCAutoreleasePoolStmt>(s)) return deep(p->getSubStmt());
  return 0;
}
}
using namespace spec;
CONTRACT("oclint::StmtDepthMetric::depth") int c_stmt(oclint::StmtDepthMetric& self, Stmt* s) { return deep(s); }
#define KIND(K) CONTRACT("oclint::StmtDepthMetric::depth") int c_##K(oclint::StmtDepthMetric& self, K* s) { REQUIRES(s != nullptr); return deep(s); }
KIND(CompoundStmt) KIND(IfStmt) KIND(WhileStmt) KIND(DoStmt) KIND(ForStmt) KIND(ObjCForCollectionStmt) KIND(SwitchStmt) KIND(SwitchCase)
KIND(CXXTryStmt) KIND(CXXCatchStmt) KIND(ObjCAtTryStmt) KIND(ObjCAtCatchStmt) KIND(ObjCAtFinallyStmt) KIND(ObjCAtSynchronizedStmt) KIND(ObjCAutoreleasePoolStmt)
CONTRACT("getStmtDepth") int c_get(Stmt* s) { return deep(s); }
