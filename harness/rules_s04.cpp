#include "rules.h"
#include "specs/s04.h"
using namespace rules;
namespace spec {
bool leavesUnder(Stmt* s) {
  return !under<BreakStmt>(s).empty() || !under<ReturnStmt>(s).empty() || !under<ContinueStmt>(s).empty() || !under<CXXThrowExpr>(s).empty() || !under<ObjCAtThrowStmt>(s).empty();
}
std::vector<LabelStmt*> labelsUnder(Stmt* s) { return under<LabelStmt>(s); }
}
static void fill() {
  auto& t = table();
  t["missing break in switch statement"].handlers = {onStmt<SwitchStmt>(spec::missingBreak)};
  t["missing default in switch statements"].handlers = {onStmt<SwitchStmt>(spec::missingDefault)};
  t["unnecessary default statement in covered switch statement"].handlers = {onStmt<SwitchStmt>(spec::unneededDefault)};
  t["ill-placed default label in switch statement"].handlers = {onStmt<SwitchStmt>(spec::defaultNotLast)};
  t["too few branches in switch statement"].handlers = {onStmt<SwitchStmt>(spec::tooFewBranches)};
  t["non case label in switch statement"].handlers = {onStmt<SwitchStmt>(spec::strayLabels)};
}
static void c(h::Rng& r) {
  oclint::RuleConfiguration::removeAll();
  std::string set;
  if (r.chance(40)) { set = h::str(r.range(-1, 7)); oclint::RuleConfiguration::addConfiguration("MINIMUM_CASES_IN_SWITCH", set); set = " with MINIMUM_CASES_IN_SWITCH=" + set; }
  compare(random(r, "S04"), set);
}
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S04", c}}); }
