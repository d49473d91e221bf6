// M03: the non-commenting source statement count.
// cppvc: depth=1
#include "cppvc.h"
#include "oclint-metrics/lib/NcssMetric.cpp"
using namespace clang;
namespace spec {
int count(Stmt* s);
// the sum over the first n statements of a block
LOGIC int sum(CompoundStmt* s, int n) {
  if (n <= 0) return 0;
  return sum(s, n - 1) + count(s->body_begin()[n - 1]);
}
LOGIC int handlers(CXXTryStmt* s, int n) {
  if (n <= 0) return 0;
  return handlers(s, n - 1) + count(s->getHandler(n - 1));
}
LOGIC int catches(ObjCAtTryStmt* s, int n) {
  if (n <= 0) return 0;
  return catches(s, n - 1) + count(s->getCatchStmt(n - 1));
}
LOGIC int count(Stmt* s) {
  if (s == nullptr || isa<NullStmt>(s)) return 0;
  if (CompoundStmt* c = dyn_cast<CompoundStmt>(s)) return sum(c, c->size());
  if (IfStmt* i = dyn_cast<IfStmt>(s)) return 1 + count(i->getThen()) + (i->getElse() ? 1 + count(i->getElse()) : 0);
  if (WhileStmt* w = dyn_cast<WhileStmt>(s)) return 1 + count(w->getBody());
  if (DoStmt* d = dyn_cast<DoStmt>(s)) return 2 + count(d->getBody());
  if (ForStmt* f = dyn_cast<ForStmt>(s)) return 1 + count(f->getBody());
  if (ObjCForCollectionStmt* f = dyn_cast<ObjCForCollectionStmt>(s)) return 1 + count(f->getBody());
  if (SwitchStmt* w = dyn_cast<SwitchStmt>(s)) return 1 + count(w->getBody());
  if (SwitchCase* c = dyn_cast<SwitchCase>(s)) return 1 + count(c->getSubStmt());
  if (CXXTryStmt* t = dyn_cast<CXXTryStmt>(s)) return 1 + count(t->getTryBlock()) + handlers(t, t->getNumHandlers());
  if (CXXCatchStmt* c = dyn_cast<CXXCatchStmt>(s)) return 1 + count(c->getHandlerBlock());
  if (ObjCAtTryStmt* t = dyn_cast<ObjCAtTryStmt>(s)) return 1 + count(t->getTryBody()) + catches(t, t->getNumCatchStmts()) + count(t->getFinallyStmt());
  if (ObjCAtCatchStmt* c = dyn_cast<ObjCAtCatchStmt>(s)) return 1 + count(c->getCatchBody());
  if (ObjCAtFinallyStmt* f = dyn_cast<ObjCAtFinallyStmt>(s)) return 1 + count(f->getFinallyBody());
  if (ObjCAtSynchronizedStmt* y = dyn_cast<ObjCAtSynchronizedStmt>(s)) return 1 + count(y->getSynchBody());
  if (ObjCAutoreleasePoolStmt* p = dyn_cast<ObjCAutoreleasePoolStmt>(s)) return 1 + count(p->getSubStmt());
  return 1;
}
}
using namespace spec;
CONTRACT("oclint::NcssMetric::ncss") int c_stmt(oclint::NcssMetric& self, Stmt* s) { return count(s); }
#define KIND(K) CONTRACT("oclint::NcssMetric::ncss") int c_##K(oclint::NcssMetric& self, K* s) { REQUIRES(s != nullptr); return count(s); }
KIND(NullStmt) KIND(CompoundStmt) KIND(IfStmt) KIND(WhileStmt) KIND(DoStmt) KIND(ForStmt) KIND(ObjCForCollectionStmt) KIND(SwitchStmt) KIND(SwitchCase)
KIND(CXXTryStmt) KIND(CXXCatchStmt) KIND(ObjCAtTryStmt) KIND(ObjCAtCatchStmt) KIND(ObjCAtFinallyStmt) KIND(ObjCAtSynchronizedStmt) KIND(ObjCAutoreleasePoolStmt)
CONTRACT("getNcssCount")
int c_get(Decl* d) { return d->hasBody() ? count(d->getBody()) + 1 : 0; }
