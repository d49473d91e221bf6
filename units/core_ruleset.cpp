// C13: the rule registry.
#include "cppvc.h"
#include "oclint-core/lib/RuleSet.cpp"

namespace spec {
inline std::vector<RuleBase*> registered() { return _rules == nullptr ? std::vector<RuleBase*>() : *_rules; }
}
CONTRACT("oclint::RuleSet::RuleSet")
void c_RuleSet(RuleSet& self, RuleBase* r) {
  if (_rules == nullptr) _rules = new std::vector<RuleBase*>();
  *_rules = cppvc::append(*_rules, r);
}
CONTRACT("oclint::RuleSet::numberOfRules")
int c_n() { return spec::registered().size(); }
CONTRACT("oclint::RuleSet::getRuleAtIndex")
RuleBase* c_at(int index) {
  std::vector<RuleBase*> v = spec::registered();
  if (index < 0 || index >= (int)v.size()) return nullptr;
  return v[index];
}
