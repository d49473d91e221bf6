// S02: empty bodies
#include "common.h"
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
namespace spec {
inline bool emptyBody(Stmt* s) {
  if (s == nullptr) return false;
  if (isa<NullStmt>(s)) return true;
  CompoundStmt* c = dyn_cast<CompoundStmt>(s);
  return c && c->body_empty();
}
inline void ifEmpty(oclint::RuleBase* r, Stmt* body) { if (emptyBody(body)) report(r, body); }
inline void emptyIf(oclint::RuleBase* r, IfStmt* s) { ifEmpty(r, s->getThen()); }
inline void emptyElse(oclint::RuleBase* r, IfStmt* s) { ifEmpty(r, s->getElse()); }
inline void emptyWhile(oclint::RuleBase* r, WhileStmt* s) { ifEmpty(r, s->getBody()); }
inline void emptyDo(oclint::RuleBase* r, DoStmt* s) { ifEmpty(r, s->getBody()); }
inline void emptyFor(oclint::RuleBase* r, ForStmt* s) { ifEmpty(r, s->getBody()); }
inline void emptyForIn(oclint::RuleBase* r, ObjCForCollectionStmt* s) { ifEmpty(r, s->getBody()); }
inline void emptySwitch(oclint::RuleBase* r, SwitchStmt* s) { ifEmpty(r, s->getBody()); }
inline void emptyTry(oclint::RuleBase* r, CXXTryStmt* s) { ifEmpty(r, s->getTryBlock()); }
inline void emptyObjCTry(oclint::RuleBase* r, ObjCAtTryStmt* s) { ifEmpty(r, s->getTryBody()); }
inline void emptyCatch(oclint::RuleBase* r, CXXCatchStmt* s) { ifEmpty(r, s->getHandlerBlock()); }
inline void emptyObjCCatch(oclint::RuleBase* r, ObjCAtCatchStmt* s) { ifEmpty(r, s->getCatchBody()); }
inline void emptyFinally(oclint::RuleBase* r, ObjCAtFinallyStmt* s) { ifEmpty(r, s->getFinallyBody()); }
}
