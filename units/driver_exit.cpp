// C06: the exit status.
#include "cppvc.h"
#include "oclint-core/lib/AbstractResults.cpp"
#define main oclint_main
#include "oclint-driver/main.cpp"
#undef main
namespace spec {
inline bool beyond(const oclint::Results& r) {
  return r.numberOfViolationsWithPriority(1) > oclint::option::maxP1() || r.numberOfViolationsWithPriority(2) > oclint::option::maxP2() ||
         r.numberOfViolationsWithPriority(3) > oclint::option::maxP3();
}
// loading may fail
bool canLoadRules(const std::string& path);
bool canLoadReporter();
LOGIC bool allLoaded(const std::vector<std::string>& paths, int i) {
  if (i < 0 || i >= (int)paths.size()) return true;
  return canLoadRules(paths[i]) && allLoaded(paths, i + 1);
}
}
using namespace spec;
ASSUME("dynamicLoadRules") void a_rules(std::string p) { if (!canLoadRules(p)) throw std::runtime_error(""); }
ASSUME("loadReporter") void a_reporter() { if (!canLoadReporter()) throw std::runtime_error(""); }
ASSUME("printErrorLine") void a_print(const char* m) { }
ASSUME("printViolationsExceedThresholdError") void a_print2(const oclint::Results* r) { }
CONTRACT("numberOfViolationsExceedThreshold") bool c_beyond(oclint::Results* r) { return beyond(*r); }
CONTRACT("handleExit") int c_exit(oclint::Results* r) {
  if (r->hasErrors()) return COMPILATION_ERRORS;
  if (beyond(*r)) return VIOLATIONS_EXCEED_THRESHOLD;
  return SUCCESS;
}
CONTRACT("consumeArgRulesPath") void c_consume() {
  if (!allLoaded(oclint::option::rulesPath(), 0)) throw std::runtime_error("");
}
CONTRACT("prepare") int c_prepare() {
  if (!allLoaded(oclint::option::rulesPath(), 0)) return RULE_NOT_FOUND;
  if (oclint::RuleSet::numberOfRules() < 1) return RULE_NOT_FOUND;
  if (!canLoadReporter()) return REPORTER_NOT_FOUND;
  return SUCCESS;
}
