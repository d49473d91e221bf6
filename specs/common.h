// Specifications of the rules: for a node, what a rule has to report.  The units prove the rules' Visit
// functions against them; the replay harness runs them next to the compiled rules.
#ifndef SPECS_COMMON_H
#define SPECS_COMMON_H
#include <string>
#include <vector>
#include <clang/AST/AST.h>
#include "oclint/RuleBase.h"
#include "oclint/RuleConfiguration.h"
#ifndef LOGIC
#define LOGIC
#endif
namespace spec {
using namespace clang;
struct Report { const void* node; oclint::RuleBase* rule; std::string message; int kind; };
extern std::vector<Report> reports;
inline Report found(oclint::RuleBase* rule, const Stmt* node, const std::string& message = "") {
  Report r;
  r.node = node; r.rule = rule; r.message = message; r.kind = 0;
  return r;
}
inline Report found(oclint::RuleBase* rule, const Decl* node, const std::string& message = "") {
  Report r;
  r.node = node; r.rule = rule; r.message = message; r.kind = 1;
  return r;
}
inline void report(oclint::RuleBase* rule, const Stmt* node, const std::string& message = "") { if (node) reports.push_back(found(rule, node, message)); }
inline void report(oclint::RuleBase* rule, const Decl* node, const std::string& message = "") { if (node) reports.push_back(found(rule, node, message)); }
inline void report(const std::vector<Report>& v) { reports.insert(reports.end(), v.begin(), v.end()); }
}
#endif
