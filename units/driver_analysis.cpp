// C08: every selected rule is applied to every translation unit.
#include "cppvc.h"
#include "oclint-core/lib/Violation.cpp"
#include "oclint-core/lib/ViolationSet.cpp"
#include "oclint-core/lib/ResultCollector.cpp"
#include "oclint-core/lib/RuleCarrier.cpp"
#include "oclint-core/lib/RuleBase.cpp"
#include "oclint-driver/lib/RulesetBasedAnalyzer.cpp"
using namespace oclint;
namespace spec {
// what happened: this rule was applied to this unit, recording in this set
struct Event { RuleBase* rule; clang::ASTContext* unit; ViolationSet* set; };
typedef std::vector<Event> Events;
Events events;
LOGIC Events applied(const std::vector<RuleBase*>& rules, clang::ASTContext* unit, ViolationSet* set, int n) {
  if (n <= 0) return Events();
  Event e;
  e.rule = rules[n - 1]; e.unit = unit; e.set = set;
  return cppvc::append(applied(rules, unit, set, n - 1), e);
}
LOGIC Events run(const std::vector<RuleBase*>& rules, const std::vector<clang::ASTContext*>& units, int n) {
  if (n <= 0) return Events();
  return cppvc::concat(run(rules, units, n - 1), applied(rules, units[n - 1], cppvc::nth_new<ViolationSet>(n - 1), rules.size()));
}
LOGIC std::vector<ViolationSet*> sets(int n) {
  if (n <= 0) return {};
  return cppvc::append(sets(n - 1), cppvc::nth_new<ViolationSet>(n - 1));
}
}
using namespace spec;
ASSUME("oclint::RuleBase::apply") void a_apply(RuleBase& self) {
  Event e;
  e.rule = &self; e.unit = self._carrier->_astContext; e.set = self._carrier->_violationSet;
  events.push_back(e);
}
ASSUME("oclint::logger::verboseStream") llvm::raw_ostream& a_stream() { return llvm::nulls(); }
ASSUME("oclint::ResultCollector::getInstance") ResultCollector* a_instance() { return _singleton; }
CONTRACT("oclint::RuleBase::takeoff") void c_takeoff(RuleBase& self, RuleCarrier* c) {
  self._carrier = c;
  Event e;
  e.rule = &self; e.unit = c->_astContext; e.set = c->_violationSet;
  events.push_back(e);
}
CONTRACT("oclint::RulesetBasedAnalyzer::analyze") void c_analyze(RulesetBasedAnalyzer& self, std::vector<clang::ASTContext*>& units) {
  cppvc::unspecified(self._filteredRules[0]->_carrier);
  events = cppvc::concat(events, run(self._filteredRules, units, units.size()));
  _singleton->_collection = cppvc::concat(_singleton->_collection, sets(units.size()));
}
