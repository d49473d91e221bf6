#include "rules.h"
#include <list>
#include <set>
#include <sstream>
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/RuleConfiguration.h"
#include "specs/s07.h"
#define rules rulesHere
#include "oclint-rules/rules/unused/UnusedLocalVariableRule.cpp"
#undef rules
using namespace ::rules;
static void fill() {
  auto& t = table();
  t["unused local variable"].handlers = {onDecl<VarDecl>([](oclint::RuleBase* r, VarDecl* v) { spec::unusedLocal(r, v, spec::configured()); })};
  t["unused method parameter"].handlers = {onDecl<ParmVarDecl>(spec::unusedParameter)};
}
static void c(h::Rng& r) {
  oclint::RuleConfiguration::removeAll();
  std::string set;
  for (const char* k : {"RAII_DEFAULT_CLASSES", "RAII_CUSTOM_CLASSES"}) if (r.chance(35)) {
    std::string v;
    static const char* parts[] = {"Guard", "held::Lock", "Node", "int", ",", ";", " ", "\t", ", ", "held", "Lock", "Pair", "std::lock_guard"};
    for (int i = r.below(6); i > 0; i--) v += parts[r.below(13)];
    oclint::RuleConfiguration::addConfiguration(k, v);
    set += std::string(set.empty() ? " with " : ", ") + k + "=\"" + v + "\"";
  }
  // the rule reads its configuration when it is made
  for (int i = 0; i < oclint::RuleSet::numberOfRules(); i++) if (oclint::RuleSet::getRuleAtIndex(i)->name() == "unused local variable") {
    auto* u = static_cast<UnusedLocalVariableRule*>(oclint::RuleSet::getRuleAtIndex(i));
    u->~UnusedLocalVariableRule();
    new (u) UnusedLocalVariableRule();
  }
  compare(random(r, "S07"), set);
}
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S07", c}}); }
