// S03: null checks
#include "common.h"
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprObjC.h>
namespace spec {
LOGIC inline Expr* inParens(Expr* e) {
  if (e == nullptr || !isa<ParenExpr>(e)) return e;
  return inParens(dyn_cast<ParenExpr>(e)->getSubExpr());
}
inline bool null(Expr* e) {
  ImplicitCastExpr* i = dyn_cast_or_null<ImplicitCastExpr>(e);
  if (i == nullptr) return false;
  if (i->getCastKind() == CK_NullToPointer) return true;
  if (i->getCastKind() != CK_BitCast) return false;
  CStyleCastExpr* c = dyn_cast_or_null<CStyleCastExpr>(inParens(i->getSubExpr()));
  return c && c->getCastKind() == CK_NullToPointer;
}
// the variable whose value is taken
LOGIC inline ValueDecl* variable(ImplicitCastExpr* i) {
  if (i == nullptr) return nullptr;
  if (i->getCastKind() == CK_PointerToBoolean) return variable(dyn_cast_or_null<ImplicitCastExpr>(i->getSubExpr()));
  DeclRefExpr* d = dyn_cast_or_null<DeclRefExpr>(i->getSubExpr());
  return d ? d->getDecl() : nullptr;
}
inline bool value(Expr* e) {
  ImplicitCastExpr* i = dyn_cast_or_null<ImplicitCastExpr>(e);
  if (i == nullptr) return false;
  return i->getCastKind() == CK_PointerToBoolean || (i->getCastKind() == CK_LValueToRValue && i->getSubExpr() && isa<DeclRefExpr>(i->getSubExpr()));
}
inline ValueDecl* compared(BinaryOperator* b) { return variable(dyn_cast_or_null<ImplicitCastExpr>(null(b->getLHS()) ? b->getRHS() : b->getLHS())); }
inline bool comparison(BinaryOperator* b, BinaryOperatorKind k) { return b->getOpcode() == k && null(b->getLHS()) != null(b->getRHS()); }
// the variable an expression says to be null, or not to be null
inline ValueDecl* saysNull(Expr* e) {
  BinaryOperator* b = dyn_cast_or_null<BinaryOperator>(e);
  if (b) return comparison(b, BO_EQ) ? compared(b) : nullptr;
  UnaryOperator* u = dyn_cast_or_null<UnaryOperator>(e);
  return u && u->getOpcode() == UO_LNot && value(u->getSubExpr()) ? variable(dyn_cast_or_null<ImplicitCastExpr>(u->getSubExpr())) : nullptr;
}
inline ValueDecl* saysNotNull(Expr* e) {
  BinaryOperator* b = dyn_cast_or_null<BinaryOperator>(e);
  if (b) return comparison(b, BO_NE) ? compared(b) : nullptr;
  return value(e) ? variable(dyn_cast_or_null<ImplicitCastExpr>(e)) : nullptr;
}
// somewhere in an expression a member is reached through the variable, or a message is sent to it
bool dereferenced(ValueDecl* v, Expr* e);
bool messaged(ValueDecl* v, Expr* e);
inline bool reaches(ValueDecl* v, MemberExpr* m) { return m->isArrow() && variable(dyn_cast_or_null<ImplicitCastExpr>(m->getBase())) == v; }
inline bool sends(ValueDecl* v, ObjCMessageExpr* m) { return variable(dyn_cast_or_null<ImplicitCastExpr>(m->getInstanceReceiver())) == v; }
inline ValueDecl* broken(BinaryOperator* b) {
  if (b->getOpcode() == BO_LOr) return saysNotNull(b->getLHS());
  return b->getOpcode() == BO_LAnd ? saysNull(b->getLHS()) : nullptr;
}
inline ValueDecl* misplaced(BinaryOperator* b) {
  if (b->getOpcode() == BO_LAnd) return saysNotNull(b->getRHS());
  return b->getOpcode() == BO_LOr ? saysNull(b->getRHS()) : nullptr;
}
inline ValueDecl* redundant(BinaryOperator* b) {
  UnaryOperator* u = dyn_cast_or_null<UnaryOperator>(b->getRHS());
  return b->getOpcode() == BO_LAnd && !(u && u->getOpcode() == UO_LNot) ? saysNotNull(b->getLHS()) : nullptr;
}
inline void brokenNull(oclint::RuleBase* r, BinaryOperator* b) { ValueDecl* v = broken(b); if (v && dereferenced(v, b->getRHS())) report(r, b); }
inline void brokenNil(oclint::RuleBase* r, BinaryOperator* b) { ValueDecl* v = broken(b); if (v && messaged(v, b->getRHS())) report(r, b); }
inline void misplacedNull(oclint::RuleBase* r, BinaryOperator* b) { ValueDecl* v = misplaced(b); if (v && dereferenced(v, b->getLHS())) report(r, b); }
inline void misplacedNil(oclint::RuleBase* r, BinaryOperator* b) { ValueDecl* v = misplaced(b); if (v && messaged(v, b->getLHS())) report(r, b); }
inline void redundantNil(oclint::RuleBase* r, BinaryOperator* b) { ValueDecl* v = redundant(b); if (v && messaged(v, b->getRHS())) report(r, b); }
}
