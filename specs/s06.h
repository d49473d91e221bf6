// S06: control flow
#include "common.h"
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprObjC.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
#include <clang/AST/DeclObjC.h>
#include <clang/Basic/SourceManager.h>
#include "oclint/RuleCarrier.h"
namespace spec {
// what stands under a node, in clang's order
std::vector<ReturnStmt*> returnsUnder(Stmt* s);
std::vector<ObjCAtThrowStmt*> throwsUnder(Stmt* s);
std::vector<ObjCMessageExpr*> raisesUnder(Stmt* s);
std::vector<BinaryOperator*> assignmentsUnder(Decl* d, const std::vector<ParmVarDecl*>& params);
inline Stmt* nth(const CompoundStmt* c, int i) { return *(c->body_begin() + i); }
// ---- finally
LOGIC inline std::vector<Report> each(oclint::RuleBase* r, const std::vector<ReturnStmt*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = each(r, l, n - 1);
  if (l[n - 1]) v.push_back(found(r, l[n - 1]));
  return v;
}
LOGIC inline std::vector<Report> each(oclint::RuleBase* r, const std::vector<ObjCAtThrowStmt*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = each(r, l, n - 1);
  if (l[n - 1]) v.push_back(found(r, l[n - 1]));
  return v;
}
LOGIC inline std::vector<Report> each(oclint::RuleBase* r, const std::vector<ObjCMessageExpr*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = each(r, l, n - 1);
  if (l[n - 1]) v.push_back(found(r, l[n - 1]));
  return v;
}
LOGIC inline std::vector<Report> each(oclint::RuleBase* r, const std::vector<BinaryOperator*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = each(r, l, n - 1);
  if (l[n - 1]) v.push_back(found(r, l[n - 1]));
  return v;
}
inline void returnInFinally(oclint::RuleBase* r, ObjCAtFinallyStmt* s) { std::vector<ReturnStmt*> l = returnsUnder(s); report(each(r, l, l.size())); }
inline bool raises(ObjCMessageExpr* m) {
  std::string n = m->getSelector().getAsString();
  return (n == "raise" || n == "raise:format:" || n == "raise:format:arguments:") && m->getReceiverInterface() != nullptr && m->getReceiverInterface()->getNameAsString() == "NSException";
}
inline void throwInFinally(oclint::RuleBase* r, ObjCAtFinallyStmt* s) {
  std::vector<ObjCAtThrowStmt*> t = throwsUnder(s);
  std::vector<ObjCMessageExpr*> m = raisesUnder(s);
  report(each(r, t, t.size()));
  report(each(r, m, m.size()));
}
// ---- loops
inline void gotoStatement(oclint::RuleBase* r, const GotoStmt* s) { report(r, s); }
inline void forShouldBeWhile(oclint::RuleBase* r, ForStmt* s) {
  if (s->getInit() == nullptr && s->getInc() == nullptr && s->getCond() != nullptr && !isa<NullStmt>((Stmt*)s->getCond())) report(r, s);
}
inline ForStmt* innerFor(ForStmt* s) {
  Stmt* b = s->getBody();
  if (b == nullptr) return nullptr;
  if (ForStmt* f = dyn_cast<ForStmt>(b)) return f;
  CompoundStmt* c = dyn_cast<CompoundStmt>(b);
  return c && c->size() == 1 ? dyn_cast_or_null<ForStmt>(c->body_back()) : nullptr;
}
// the variable a for statement declares, if it declares just one
inline Decl* loopVariable(ForStmt* s) {
  DeclStmt* d = dyn_cast_or_null<DeclStmt>(s->getInit());
  return d && d->isSingleDecl() ? (Decl*)dyn_cast_or_null<VarDecl>(d->getSingleDecl()) : nullptr;
}
inline Decl* stepped(Expr* e) {
  UnaryOperator* u = dyn_cast_or_null<UnaryOperator>(e);
  DeclRefExpr* d = u ? dyn_cast_or_null<DeclRefExpr>(u->getSubExpr()) : nullptr;
  return d ? (Decl*)d->getDecl() : nullptr;
}
inline void jumbledIncrementer(oclint::RuleBase* r, ForStmt* s) {
  ForStmt* f = innerFor(s);
  if (f && loopVariable(s) && stepped(f->getInc()) == loopVariable(s)) report(r, f->getInc());
}
inline void branchLast(oclint::RuleBase* r, Stmt* body) {
  CompoundStmt* c = dyn_cast_or_null<CompoundStmt>(body);
  Stmt* l = c ? c->body_back() : nullptr;
  if (l && (isa<BreakStmt>(l) || isa<ContinueStmt>(l) || isa<ReturnStmt>(l))) report(r, l);
}
inline void branchLastFor(oclint::RuleBase* r, ForStmt* s) { branchLast(r, s->getBody()); }
inline void branchLastForIn(oclint::RuleBase* r, ObjCForCollectionStmt* s) { branchLast(r, s->getBody()); }
inline void branchLastWhile(oclint::RuleBase* r, WhileStmt* s) { branchLast(r, s->getBody()); }
inline void branchLastDo(oclint::RuleBase* r, DoStmt* s) { branchLast(r, s->getBody()); }
// ---- if
inline IfStmt* onlyIf(Stmt* s) {
  if (s == nullptr) return nullptr;
  if (IfStmt* i = dyn_cast<IfStmt>(s)) return i;
  CompoundStmt* c = dyn_cast<CompoundStmt>(s);
  return c && c->size() == 1 ? dyn_cast<IfStmt>(nth(c, 0)) : nullptr;
}
inline void collapsibleIf(oclint::RuleBase* r, IfStmt* s) {
  IfStmt* i = onlyIf(s->getThen());
  if (i && s->getElse() == nullptr && i->getElse() == nullptr) report(r, s);
}
// does a statement always end in a return?
bool returns(Stmt* s);
LOGIC inline bool anyReturns(CompoundStmt* c, int i) {
  if (i < 0 || i >= (int)c->size()) return false;
  if (returns(nth(c, i))) return true;
  return anyReturns(c, i + 1);
}
LOGIC inline bool returns(Stmt* s) {
  if (s == nullptr) return false;
  if (isa<CompoundStmt>(s)) return anyReturns(dyn_cast<CompoundStmt>(s), 0);
  if (isa<IfStmt>(s)) return returns(dyn_cast<IfStmt>(s)->getThen()) && returns(dyn_cast<IfStmt>(s)->getElse());
  return isa<ReturnStmt>(s);
}
// an if with the ifs that make up its else parts
LOGIC inline std::vector<IfStmt*> elseIfs(IfStmt* s) {
  Stmt* e = s->getElse();
  if (e == nullptr || !isa<IfStmt>(e)) return {};
  std::vector<IfStmt*> v = {dyn_cast<IfStmt>(e)}, w = elseIfs(dyn_cast<IfStmt>(e));
  v.insert(v.end(), w.begin(), w.end());
  return v;
}
LOGIC inline std::vector<IfStmt*> chain(IfStmt* s) {
  std::vector<IfStmt*> v = {s}, w = elseIfs(s);
  v.insert(v.end(), w.begin(), w.end());
  return v;
}
LOGIC inline Stmt* lastElse(IfStmt* s) {
  Stmt* e = s->getElse();
  if (e == nullptr || !isa<IfStmt>(e)) return e;
  return lastElse(dyn_cast<IfStmt>(e));
}
LOGIC inline bool allReturn(const std::vector<IfStmt*>& l, int i) {
  if (i < 0 || i >= (int)l.size()) return true;
  if (!returns(l[i]->getThen())) return false;
  return allReturn(l, i + 1);
}
LOGIC inline bool listed(IfStmt* s, const std::vector<IfStmt*>& l, int i) {
  if (i < 0 || i >= (int)l.size()) return false;
  if (l[i] == s) return true;
  return listed(s, l, i + 1);
}
inline void unnecessaryElse(oclint::RuleBase* r, IfStmt* s) { if (allReturn(chain(s), 0)) report(r, lastElse(s)); }
// ---- dead code
enum Exit { None, Restart, Leave, Full };
int exitOf(const Stmt* s);
LOGIC inline int exitFrom(const CompoundStmt* c, int i) {
  if (i < 0 || i >= (int)c->size()) return None;
  if (exitOf(nth(c, i)) != None) return exitOf(nth(c, i));
  return exitFrom(c, i + 1);
}
inline int both(int a, int b) {
  if (a == b) return a;
  if (a == None || b == None) return None;
  return a == Leave || b == Leave ? Leave : Full;
}
LOGIC inline int exitOf(const Stmt* s) {
  if (isa<BreakStmt>(s)) return Leave;
  if (isa<ContinueStmt>(s)) return Restart;
  if (isa<ReturnStmt>(s) || isa<GotoStmt>(s) || isa<CXXThrowExpr>(s) || isa<ObjCAtThrowStmt>(s)) return Full;
  if (isa<SwitchCase>(s)) return exitOf(dyn_cast<SwitchCase>(s)->getSubStmt());
  if (isa<CompoundStmt>(s)) return exitFrom(dyn_cast<CompoundStmt>(s), 0);
  if (isa<IfStmt>(s)) return dyn_cast<IfStmt>(s)->getElse() == nullptr ? None : both(exitOf(dyn_cast<IfStmt>(s)->getThen()), exitOf(dyn_cast<IfStmt>(s)->getElse()));
  return None;
}
LOGIC inline bool cannotReach(const CompoundStmt* c, int n) { return n > 0 && exitOf(nth(c, n - 1)) != None; }
LOGIC inline Stmt* firstDead(const CompoundStmt* c, int i) {
  if (i < 0 || i >= (int)c->size()) return nullptr;
  Stmt* s = nth(c, i);
  if (cannotReach(c, i) && s && !isa<SwitchCase>(s) && !isa<LabelStmt>(s)) return s;
  return firstDead(c, i + 1);
}
inline void deadCode(oclint::RuleBase* r, CompoundStmt* s) { report(r, firstDead(s, 0)); }
// ---- early exit
inline int lines(oclint::RuleBase* r, Stmt* s) {
  SourceManager& m = r->_carrier->getSourceManager();
  return m.getPresumedLineNumber(s->getSourceRange().getEnd()) - m.getPresumedLineNumber(s->getSourceRange().getBegin()) + 1;
}
inline void longIf(oclint::RuleBase* r, Stmt* s) {
  IfStmt* i = dyn_cast_or_null<IfStmt>(s);
  if (i && i->getElse() == nullptr && lines(r, i) > oclint::RuleConfiguration::intForKey("MAXIMUM_IF_LENGTH", 15)) report(r, i, "Use early exit/continue to simplify code and reduce indentation");
}
inline void longIfBeforeExit(oclint::RuleBase* r, CompoundStmt* c) {
  if ((int)c->size() < 2) return;
  Stmt* l = nth(c, (int)c->size() - 1);
  if (l && (isa<BreakStmt>(l) || isa<ContinueStmt>(l) || isa<GotoStmt>(l) || isa<IndirectGotoStmt>(l) || isa<ReturnStmt>(l))) longIf(r, nth(c, (int)c->size() - 2));
}
inline void longIfLast(oclint::RuleBase* r, Stmt* body) {
  CompoundStmt* c = dyn_cast_or_null<CompoundStmt>(body);
  longIf(r, c ? c->body_back() : body);
}
inline void longIfFor(oclint::RuleBase* r, ForStmt* s) { longIfLast(r, s->getBody()); }
inline void longIfWhile(oclint::RuleBase* r, WhileStmt* s) { longIfLast(r, s->getBody()); }
inline void longIfDo(oclint::RuleBase* r, DoStmt* s) { longIfLast(r, s->getBody()); }
// ---- parameters
LOGIC inline bool isOneOf(ValueDecl* d, const std::vector<ParmVarDecl*>& params, int i) {
  if (i < 0 || i >= (int)params.size()) return false;
  if (d == params[i]) return true;
  return isOneOf(d, params, i + 1);
}
inline bool assigns(BinaryOperator* b, const std::vector<ParmVarDecl*>& params) {
  DeclRefExpr* d = dyn_cast_or_null<DeclRefExpr>(b->getLHS());
  return b->getOpcode() == BO_Assign && d && isOneOf(d->getDecl(), params, 0);
}
LOGIC inline std::vector<ParmVarDecl*> paramsOf(FunctionDecl* f, int n) {
  if (n <= 0) return {};
  std::vector<ParmVarDecl*> v = paramsOf(f, n - 1);
  v.push_back(f->getParamDecl(n - 1));
  return v;
}
LOGIC inline std::vector<ParmVarDecl*> paramsOf(ObjCMethodDecl* f, int n) {
  if (n <= 0) return {};
  std::vector<ParmVarDecl*> v = paramsOf(f, n - 1);
  v.push_back(*(f->param_begin() + (n - 1)));
  return v;
}
inline void reassigned(oclint::RuleBase* r, Decl* f, const std::vector<ParmVarDecl*>& params) {
  if (params.empty()) return;
  std::vector<BinaryOperator*> l = assignmentsUnder(f, params);
  report(each(r, l, l.size()));
}
inline void reassignedInFunction(oclint::RuleBase* r, FunctionDecl* f) { reassigned(r, f, paramsOf(f, f->getNumParams())); }
inline void reassignedInMethod(oclint::RuleBase* r, ObjCMethodDecl* f) { reassigned(r, f, paramsOf(f, f->param_size())); }
}
