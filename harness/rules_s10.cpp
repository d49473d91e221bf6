// What a rule says about itself before and after it has been configured and has analysed files.
#include "rules.h"
using namespace rules;
typedef std::tuple<std::string, std::string, int> Said;
static Said ask(oclint::RuleBase* r) { return Said(r->name(), r->category(), r->priority()); }
static std::string text(const Said& s) { return "\"" + std::get<0>(s) + "\" in \"" + std::get<1>(s) + "\" with priority " + h::str(std::get<2>(s)); }
static void c(h::Rng& r) {
  static std::vector<Said> first;
  int n = oclint::RuleSet::numberOfRules();
  if (first.empty()) for (int i = 0; i < n; i++) first.push_back(ask(oclint::RuleSet::getRuleAtIndex(i)));
  static const char* keys[] = {"CYCLOMATIC_COMPLEXITY", "LONG_CLASS", "LONG_LINE", "LONG_METHOD", "LONG_VARIABLE_NAME", "MAXIMUM_IF_LENGTH", "MINIMUM_CASES_IN_SWITCH", "NCSS_METHOD", "NESTED_BLOCK_DEPTH", "NPATH_COMPLEXITY", "RAII_CUSTOM_CLASSES", "RAII_DEFAULT_CLASSES", "SHORT_VARIABLE_NAME", "TOO_MANY_FIELDS", "TOO_MANY_METHODS", "TOO_MANY_PARAMETERS"};
  std::string set;
  if (r.chance(30)) oclint::RuleConfiguration::removeAll();
  for (const char* k : keys) if (r.chance(10)) { std::string v = r.chance(90) ? h::str(r.range(-3, 3000)) : "x,y"; oclint::RuleConfiguration::addConfiguration(k, v); set += std::string(k) + "=" + v + " "; }
  Source src = random(r, r.chance(50) ? "S01" : "S06");
  auto ast = r.chance(60) ? parse(src) : nullptr;
  int rule = r.below(n);
  for (int i = 0; i < n; i++) {
    oclint::RuleBase* b = oclint::RuleSet::getRuleAtIndex(i);
    if (ast && (i == rule || r.chance(5))) { oclint::ViolationSet vs; oclint::RuleCarrier carrier(&ast->getASTContext(), &vs); b->takeoff(&carrier); h::ctx().nontrivial++; }
    Said s = ask(b);
    std::string input = set + "\n" + (ast ? src.code : "");
    if (std::get<0>(s).empty() || std::get<1>(s).empty()) h::fail("a rule has no name or no category", input, text(first[i]), text(s));
    bool known = std::get<0>(s) == "branch divergence" && std::get<2>(s) == 10;   // known-findings.txt
    if (!known && (std::get<2>(s) < 1 || std::get<2>(s) > 3)) h::fail("a rule has no priority from 1 to 3", input, "1, 2 or 3", text(s));
    if (s != first[i]) h::fail("a rule says something else about itself", input, text(first[i]), text(s));
  }
}
int main(int argc, char** argv) { return h::run(argc, argv, {{"S10", c}}); }
