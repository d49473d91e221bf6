#include "rules.h"
#include "specs/s06.h"
using namespace rules;
namespace spec {
std::vector<ReturnStmt*> returnsUnder(Stmt* s) { return under<ReturnStmt>(s); }
std::vector<ObjCAtThrowStmt*> throwsUnder(Stmt* s) { return under<ObjCAtThrowStmt>(s); }
std::vector<ObjCMessageExpr*> raisesUnder(Stmt* s) { std::vector<ObjCMessageExpr*> v; for (auto* m : under<ObjCMessageExpr>(s)) if (raises(m)) v.push_back(m); return v; }
std::vector<BinaryOperator*> assignmentsUnder(Decl* d, const std::vector<ParmVarDecl*>& p) { std::vector<BinaryOperator*> v; for (auto* b : under<BinaryOperator>(d)) if (assigns(b, p)) v.push_back(b); return v; }
}
static std::set<IfStmt*> inChain;
static void fill() {
  auto& t = table();
  t["return from finally block"].handlers = {onStmt<ObjCAtFinallyStmt>(spec::returnInFinally)};
  t["throw exception from finally block"] = {OBJC, {}, {onStmt<ObjCAtFinallyStmt>(spec::throwInFinally)}};
  t["goto statement"].handlers = {onStmt<GotoStmt>(spec::gotoStatement)};
  t["for loop should be while loop"].handlers = {onStmt<ForStmt>(spec::forShouldBeWhile)};
  t["jumbled incrementer"].handlers = {onStmt<ForStmt>(spec::jumbledIncrementer)};
  t["avoid branching statement as last in loop"].handlers = {onStmt<ForStmt>(spec::branchLastFor), onStmt<ObjCForCollectionStmt>(spec::branchLastForIn), onStmt<WhileStmt>(spec::branchLastWhile), onStmt<DoStmt>(spec::branchLastDo)};
  t["collapsible if statements"].handlers = {onStmt<IfStmt>(spec::collapsibleIf)};
  auto heads = [](oclint::RuleBase* r, IfStmt* s) { if (inChain.count(s)) return; for (auto* i : spec::elseIfs(s)) inChain.insert(i); spec::unnecessaryElse(r, s); };
  t["unnecessary else statement"] = {ALL, [](oclint::RuleBase*) { inChain.clear(); }, {onStmt<IfStmt>(heads)}};
  t["dead code"].handlers = {onStmt<CompoundStmt>(spec::deadCode)};
  t["prefer early exits and continue"].handlers = {onStmt<CompoundStmt>(spec::longIfBeforeExit), onStmt<ForStmt>(spec::longIfFor), onStmt<WhileStmt>(spec::longIfWhile), onStmt<DoStmt>(spec::longIfDo)};
  t["parameter reassignment"].handlers = {onDecl<FunctionDecl>(spec::reassignedInFunction), onDecl<ObjCMethodDecl>(spec::reassignedInMethod)};
}
static void c(h::Rng& r) {
  oclint::RuleConfiguration::removeAll();
  std::string set;
  if (r.chance(60)) { set = h::str(r.range(-1, 17)); oclint::RuleConfiguration::addConfiguration("MAXIMUM_IF_LENGTH", set); set = " with MAXIMUM_IF_LENGTH=" + set; }
  compare(random(r, "S06"), set);
}
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S06", c}}); }
