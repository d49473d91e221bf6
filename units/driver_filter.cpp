// C07: the selection of rules.
#include "cppvc.h"
#include "oclint-core/lib/RuleSet.cpp"
#include "oclint-driver/lib/RulesetFilter.cpp"

namespace spec {
inline bool selected(const RulesetFilter& f, const std::string& id) {
  return (f._enabled.empty() || f._enabled.count(id)) && !f._disabled.count(id);
}
LOGIC std::vector<RuleBase*> chosen(const RulesetFilter& f, int n) {
  if (n <= 0) return {};
  std::vector<RuleBase*> v = chosen(f, n - 1);
  RuleBase* r = RuleSet::getRuleAtIndex(n - 1);
  if (selected(f, r->identifier())) v.push_back(r);
  return v;
}
LOGIC std::vector<std::string> names(const std::vector<RuleBase*>& v, int n) {
  if (n <= 0) return {};
  return cppvc::append(names(v, n - 1), std::string(v[n - 1]->identifier()));
}
}
using namespace spec;
CONTRACT("oclint::RulesetFilter::enableRule")
void c_enable(RulesetFilter& self, const std::string& n) { self._enabled.insert(n); self._disabled.erase(n); }
CONTRACT("oclint::RulesetFilter::disableRule")
void c_disable(RulesetFilter& self, const std::string& n) { self._disabled.insert(n); self._enabled.erase(n); }
CONTRACT("oclint::RulesetFilter::filteredRules")
std::vector<RuleBase*> c_rules(const RulesetFilter& self) { return chosen(self, RuleSet::numberOfRules()); }
CONTRACT("oclint::RulesetFilter::filteredRuleNames")
std::vector<std::string> c_names(const RulesetFilter& self) {
  std::vector<RuleBase*> v = chosen(self, RuleSet::numberOfRules());
  return names(v, v.size());
}
