// S05: expressions and redundancy
#include "common.h"
#include <clang/AST/ASTContext.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprObjC.h>
#include <clang/AST/StmtCXX.h>
#include "oclint/RuleCarrier.h"
namespace spec {
// ---- odd numbers
inline bool literal(Expr* e, int n) {
  IntegerLiteral* l = dyn_cast_or_null<IntegerLiteral>(e);
  return l && l->getValue() == n;
}
inline bool halved(Expr* e) {
  BinaryOperator* b = dyn_cast_or_null<BinaryOperator>(e);
  return b && b->getOpcode() == BO_Rem && literal(b->getRHS(), 2);
}
inline void brokenOddness(oclint::RuleBase* r, BinaryOperator* b) {
  if (b->getOpcode() == BO_EQ && ((halved(b->getLHS()) && literal(b->getRHS(), 1)) || (literal(b->getLHS(), 1) && halved(b->getRHS())))) report(r, b);
}
// ---- constants
inline bool constant(oclint::RuleBase* r, Expr* e) {
  bool value;
  return e && !e->isValueDependent() && e->EvaluateAsBooleanCondition(value, *r->_carrier->getASTContext());
}
inline void constantIf(oclint::RuleBase* r, IfStmt* s) { if (constant(r, s->getCond())) report(r, s->getCond()); }
inline void constantConditional(oclint::RuleBase* r, ConditionalOperator* s) { if (constant(r, s->getCond())) report(r, s->getCond()); }
// ---- signs
LOGIC inline Expr* withoutParens(Expr* e) {
  if (e == nullptr || !isa<ParenExpr>(e)) return e;
  return withoutParens(dyn_cast<ParenExpr>(e)->getSubExpr());
}
inline UnaryOperator* nested(UnaryOperator* u) { return dyn_cast_or_null<UnaryOperator>(withoutParens(u->getSubExpr())); }
inline void doubleNegative(oclint::RuleBase* r, UnaryOperator* u) {
  UnaryOperator* v = nested(u);
  if (v && u->getOpcode() == v->getOpcode() && (u->getOpcode() == UO_LNot || u->getOpcode() == UO_Not)) report(r, u);
}
inline bool sign(UnaryOperator* u) { return u->getOpcode() == UO_LNot || u->getOpcode() == UO_Not || u->getOpcode() == UO_Plus || u->getOpcode() == UO_Minus; }
inline void multipleUnary(oclint::RuleBase* r, UnaryOperator* u) {
  UnaryOperator* v = nested(u);
  if (v && sign(u) && sign(v)) report(r, u);
}
// ---- conditions
inline bool inverted(Expr* e) {
  BinaryOperator* b = dyn_cast_or_null<BinaryOperator>(e);
  UnaryOperator* u = dyn_cast_or_null<UnaryOperator>(e);
  return (b && b->getOpcode() == BO_NE) || (u && u->getOpcode() == UO_LNot);
}
inline void invertedIf(oclint::RuleBase* r, IfStmt* s) { if (s->getElse() && inverted(s->getCond())) report(r, s->getCond()); }
inline void invertedConditional(oclint::RuleBase* r, ConditionalOperator* s) { if (inverted(s->getCond())) report(r, s->getCond()); }
inline void bitwise(oclint::RuleBase* r, const IfStmt* a, const WhileStmt* b, const DoStmt* c, const ConditionalOperator* d) {
  if (a) report(r, a->getCond());
  if (b) report(r, b->getCond());
  if (c) report(r, c->getCond());
  if (d) report(r, d->getCond());
}
// ---- conditional operators
inline Expr* uncast(Expr* e) {
  ImplicitCastExpr* i = dyn_cast_or_null<ImplicitCastExpr>(e);
  return i ? i->getSubExpr() : nullptr;
}
inline IntegerLiteral* castInteger(Expr* e) {   // (BOOL)1
  CStyleCastExpr* c = dyn_cast_or_null<CStyleCastExpr>(e);
  return c ? dyn_cast_or_null<IntegerLiteral>(c->getSubExpr()) : nullptr;
}
// two truth values written as constants: 0 no, 1 the same, 2 opposite
inline int truths(Expr* a, Expr* b) {
  CXXBoolLiteralExpr *ca = dyn_cast_or_null<CXXBoolLiteralExpr>(a), *cb = dyn_cast_or_null<CXXBoolLiteralExpr>(b);
  if (ca && cb) return ca->getValue() == cb->getValue() ? 1 : 2;
  ObjCBoolLiteralExpr *oa = dyn_cast_or_null<ObjCBoolLiteralExpr>(uncast(a)), *ob = dyn_cast_or_null<ObjCBoolLiteralExpr>(uncast(b));
  if (oa && ob) return oa->getValue() == ob->getValue() ? 1 : 2;
  IntegerLiteral *ia = castInteger(uncast(a)), *ib = castInteger(uncast(b));
  if (ia && ib) return ia->getValue().getBoolValue() == ib->getValue().getBoolValue() ? 1 : 2;
  return 0;
}
inline bool sameLiteral(Expr* a, Expr* b) {
  IntegerLiteral *ia = dyn_cast_or_null<IntegerLiteral>(a), *ib = dyn_cast_or_null<IntegerLiteral>(b);
  if (ia && ib) return ia->getValue() == ib->getValue();
  FloatingLiteral *fa = dyn_cast_or_null<FloatingLiteral>(a), *fb = dyn_cast_or_null<FloatingLiteral>(b);
  if (fa && fb) return fa->getValueAsApproximateDouble() == fb->getValueAsApproximateDouble();
  CharacterLiteral *ca = dyn_cast_or_null<CharacterLiteral>(a), *cb = dyn_cast_or_null<CharacterLiteral>(b);
  if (ca && cb) return ca->getValue() == cb->getValue();
  StringLiteral *sa = dyn_cast_or_null<StringLiteral>(uncast(a)), *sb = dyn_cast_or_null<StringLiteral>(uncast(b));
  return sa && sb && sa->getString() == sb->getString();
}
inline bool sameVariable(Expr* a, Expr* b) {
  DeclRefExpr *da = dyn_cast_or_null<DeclRefExpr>(uncast(a)), *db = dyn_cast_or_null<DeclRefExpr>(uncast(b));
  return da && db && da->getDecl() == db->getDecl();
}
inline void redundantConditional(oclint::RuleBase* r, ConditionalOperator* s) {
  Expr *a = s->getTrueExpr(), *b = s->getFalseExpr();
  if (truths(a, b) || sameLiteral(a, b) || sameVariable(a, b)) report(r, s);
}
// ---- ifs that only choose between true and false
LOGIC inline Stmt* only(Stmt* s) {
  if (s == nullptr || !isa<CompoundStmt>(s) || dyn_cast<CompoundStmt>(s)->size() != 1) return s;
  return only(*(dyn_cast<CompoundStmt>(s)->body_begin()));
}
inline bool opposite(Expr* a, Expr* b) {
  CXXBoolLiteralExpr *ca = dyn_cast_or_null<CXXBoolLiteralExpr>(a), *cb = dyn_cast_or_null<CXXBoolLiteralExpr>(b);
  if (ca && cb) return ca->getValue() != cb->getValue();
  ObjCBoolLiteralExpr *oa = dyn_cast_or_null<ObjCBoolLiteralExpr>(a), *ob = dyn_cast_or_null<ObjCBoolLiteralExpr>(b);
  if (oa && ob) return oa->getValue() != ob->getValue();
  IntegerLiteral *ia = castInteger(a), *ib = castInteger(b);
  return ia && ib && ia->getValue().getBoolValue() != ib->getValue().getBoolValue();
}
bool same(ASTContext& context, const Expr* a, const Expr* b);   // written alike
inline void redundantIf(oclint::RuleBase* r, IfStmt* s) {
  Stmt *a = only(s->getThen()), *b = only(s->getElse());
  ReturnStmt *ra = dyn_cast_or_null<ReturnStmt>(a), *rb = dyn_cast_or_null<ReturnStmt>(b);
  BinaryOperator *ba = dyn_cast_or_null<BinaryOperator>(a), *bb = dyn_cast_or_null<BinaryOperator>(b);
  if ((ra && rb && opposite(ra->getRetValue(), rb->getRetValue()))
      || (ba && bb && ba->getOpcode() == BO_Assign && bb->getOpcode() == BO_Assign && same(*r->_carrier->getASTContext(), ba->getLHS(), bb->getLHS()) && opposite(ba->getRHS(), bb->getRHS()))) report(r, s);
}
// ---- locals
inline void redundantLocal(oclint::RuleBase* r, CompoundStmt* s) {
  if ((int)s->size() < 2) return;
  ReturnStmt* ret = dyn_cast<ReturnStmt>((Stmt*)*(s->body_end() - 1));
  DeclStmt* d = dyn_cast<DeclStmt>((Stmt*)*(s->body_end() - 2));
  DeclRefExpr* ref = ret ? dyn_cast_or_null<DeclRefExpr>(uncast(ret->getRetValue())) : nullptr;
  NamedDecl* n = d && d->isSingleDecl() ? dyn_cast<NamedDecl>(d->getSingleDecl()) : nullptr;
  if (ref && n && ref->getFoundDecl() == n) report(r, n);
}
// ---- parentheses
inline void parens(oclint::RuleBase* r, Expr* e) { if (e && isa<ParenExpr>(e)) report(r, e); }
inline void uselessInIf(oclint::RuleBase* r, IfStmt* s) { parens(r, s->getCond()); }
inline void uselessInReturn(oclint::RuleBase* r, ReturnStmt* s) { parens(r, s->getRetValue()); }
inline void uselessInVar(oclint::RuleBase* r, VarDecl* d) { parens(r, d->getInit()); }
// ---- delete
LOGIC inline const Expr* castOf(const CastExpr* c) {
  const CastExpr* n = dyn_cast<CastExpr>(c->getSubExpr());
  return n ? castOf(n) : c->getSubExpr();
}
inline const Expr* stripped(const Expr* e) { return isa<CastExpr>(e) ? castOf(dyn_cast<CastExpr>(e)) : e; }
LOGIC inline bool nullCast(const CastExpr* c) {
  if (c == nullptr) return false;
  if (c->getCastKind() == CK_NullToPointer) return true;
  return nullCast(dyn_cast<CastExpr>(c->getSubExpr()));
}
inline bool nullPointer(const Expr* e) { return nullCast(dyn_cast<CastExpr>(e)); }
// the pointer a condition tests not to be null
inline const Expr* tested(const Expr* e) {
  const BinaryOperator* b = dyn_cast<BinaryOperator>(e);
  if (b == nullptr) return stripped(e);
  if (b->getOpcode() != BO_NE) return nullptr;
  if (nullPointer(b->getLHS())) return stripped(b->getRHS());
  return nullPointer(b->getRHS()) ? stripped(b->getLHS()) : nullptr;
}
inline bool deletes(ASTContext& c, const Stmt* s, const Expr* p) {
  const CXXDeleteExpr* d = dyn_cast<CXXDeleteExpr>(s);
  return d && stripped(d->getArgument()) && same(c, stripped(d->getArgument()), p);
}
inline bool clears(ASTContext& c, const Stmt* s, const Expr* p) {
  const BinaryOperator* b = dyn_cast<BinaryOperator>(s);
  return b && b->getOpcode() == BO_Assign && nullPointer(b->getRHS()) && same(c, stripped(b->getLHS()), p);
}
inline void nullCheckBeforeDelete(oclint::RuleBase* r, IfStmt* s) {
  if (s->getElse() != nullptr || s->getCond() == nullptr) return;
  const Expr* p = tested(s->getCond());
  if (p == nullptr) return;
  ASTContext& c = *r->_carrier->getASTContext();
  Stmt* t = s->getThen();
  CompoundStmt* b = dyn_cast<CompoundStmt>(t);
  if (b == nullptr) { if (deletes(c, t, p)) report(r, s); return; }
  if ((b->size() == 1 || b->size() == 2) && deletes(c, *b->body_begin(), p) && (b->size() == 1 || clears(c, *(b->body_begin() + 1), p))) report(r, s);
}
}
