// C01-C04: recording and reporting of results.
#include "cppvc.h"
#include "oclint-core/lib/Violation.cpp"
#include "oclint-core/lib/ViolationSet.cpp"
#include "oclint-core/lib/ResultCollector.cpp"
#include "oclint-core/lib/RuleCarrier.cpp"
#include "oclint-core/lib/AbstractResults.cpp"
#include "oclint-core/lib/RawResults.cpp"
#include "oclint-core/lib/UniqueResults.cpp"
#include <unordered_set>

namespace spec {
typedef std::vector<Violation> Vs;
typedef std::vector<ViolationSet*> Sets;

// ---- everything recorded, unit by unit
LOGIC Vs flat(const Sets& sets, int n) {
  if (n <= 0) return Vs();
  return cppvc::concat(flat(sets, n - 1), sets[n - 1]->_violations);
}
// ---- the violations among the first n, as a set, and the distinct ones in first order
struct AnyHash { size_t operator()(const Violation&) const { return 0; } };
LOGIC std::unordered_set<Violation, AnyHash> seen(const Vs& vs, int n) {
  if (n <= 0) return {};
  auto s = seen(vs, n - 1);
  s.insert(vs[n - 1]);
  return s;
}
LOGIC Vs distinct(const Vs& vs, int n) {
  if (n <= 0) return Vs();
  Vs d = distinct(vs, n - 1);
  if (seen(vs, n - 1).count(vs[n - 1]) == 0) d.push_back(vs[n - 1]);
  return d;
}
inline Vs all(const ResultCollector& c) { return flat(c._collection, c._collection.size()); }
inline Vs uniq(const Vs& v) { return distinct(v, v.size()); }
}
using namespace spec;

CONTRACT("oclint::Violation::Violation")
void c_Violation(Violation& self, RuleBase* r, std::string p, int a, int b, int c, int d, std::string m) {
  self.rule = r; self.path = p; self.message = m;
  self.startLine = a; self.startColumn = b; self.endLine = c; self.endColumn = d;
}
CONTRACT("oclint::Violation::operator==")
bool c_Violation_eq(const Violation& self, const Violation& o) {
  return self.rule == o.rule && self.path == o.path && self.startLine == o.startLine && self.startColumn == o.startColumn &&
         self.endLine == o.endLine && self.endColumn == o.endColumn && self.message == o.message;
}
CONTRACT("oclint::ViolationSet::addViolation")
void c_VS_add(ViolationSet& self, const Violation& v) { self._violations.push_back(v); }
CONTRACT("oclint::ViolationSet::numberOfViolations")
int c_VS_n(const ViolationSet& self) { return self._violations.size(); }
CONTRACT("oclint::ViolationSet::getViolations")
Vs c_VS_get(const ViolationSet& self) { return self._violations; }
CONTRACT("oclint::ViolationSet::operator==")
bool c_VS_eq(const ViolationSet& self, const ViolationSet& o) { return self._violations == o._violations; }

CONTRACT("oclint::ResultCollector::add")
void c_RC_add(ResultCollector& self, ViolationSet* s) { self._collection.push_back(s); }
CONTRACT("oclint::ResultCollector::getCollection")
Sets c_RC_get(const ResultCollector& self) { return self._collection; }
CONTRACT("oclint::ResultCollector::addError")
void c_RC_err(ResultCollector& self, const Violation& v) { self._compilerErrorSet->_violations.push_back(v); }
CONTRACT("oclint::ResultCollector::addWarning")
void c_RC_warn(ResultCollector& self, const Violation& v) { self._compilerWarningSet->_violations.push_back(v); }
CONTRACT("oclint::ResultCollector::addCheckerBug")
void c_RC_bug(ResultCollector& self, const Violation& v) { self._clangStaticCheckerBugSet->_violations.push_back(v); }
CONTRACT("oclint::ResultCollector::getCompilerErrorSet")
ViolationSet* c_RC_gerr(const ResultCollector& self) { return self._compilerErrorSet.get(); }
CONTRACT("oclint::ResultCollector::getCompilerWarningSet")
ViolationSet* c_RC_gwarn(const ResultCollector& self) { return self._compilerWarningSet.get(); }
CONTRACT("oclint::ResultCollector::getClangStaticCheckerBugSet")
ViolationSet* c_RC_gbug(const ResultCollector& self) { return self._clangStaticCheckerBugSet.get(); }

CONTRACT("oclint::RuleCarrier::addViolation")
void c_carrier(RuleCarrier& self, std::string f, int a, int b, int c, int d, RuleBase* r, const std::string& m) {
  if (f == "") return;
  self._violationSet->_violations.push_back(Violation(r, f, a, b, c, d, m));
}

CONTRACT("oclint::RawResults::allViolations")
Vs c_Raw_all(const RawResults& self) { return all(self._resultCollector); }
CONTRACT("oclint::RawResults::allErrors")
Vs c_Raw_err(const RawResults& self) { return self._resultCollector._compilerErrorSet->_violations; }
CONTRACT("oclint::RawResults::allWarnings")
Vs c_Raw_warn(const RawResults& self) { return self._resultCollector._compilerWarningSet->_violations; }
CONTRACT("oclint::RawResults::allCheckerBugs")
Vs c_Raw_bug(const RawResults& self) { return self._resultCollector._clangStaticCheckerBugSet->_violations; }

// a filled cache of the unique results holds what it would be filled with
INVARIANT("oclint::UniqueResults")
bool caches_valid(const UniqueResults& self) {
  return (self._violations.empty() || self._violations == uniq(all(self._resultCollector))) &&
         (self._errors.empty() || self._errors == uniq(self._resultCollector._compilerErrorSet->_violations)) &&
         (self._warnings.empty() || self._warnings == uniq(self._resultCollector._compilerWarningSet->_violations)) &&
         (self._checkerBugs.empty() || self._checkerBugs == uniq(self._resultCollector._clangStaticCheckerBugSet->_violations));
}
CONTRACT("oclint::UniqueResults::allViolations")
Vs c_U_all(const UniqueResults& self) { return uniq(all(self._resultCollector)); }
CONTRACT("oclint::UniqueResults::allErrors")
Vs c_U_err(const UniqueResults& self) { return uniq(self._resultCollector._compilerErrorSet->_violations); }
CONTRACT("oclint::UniqueResults::allWarnings")
Vs c_U_warn(const UniqueResults& self) { return uniq(self._resultCollector._compilerWarningSet->_violations); }
CONTRACT("oclint::UniqueResults::allCheckerBugs")
Vs c_U_bug(const UniqueResults& self) { return uniq(self._resultCollector._clangStaticCheckerBugSet->_violations); }

// ---- summaries
namespace spec {
LOGIC int withPriority(const Vs& vs, int priority, int n) {
  if (n <= 0) return 0;
  return withPriority(vs, priority, n - 1) + (vs[n - 1].rule->priority() == priority ? 1 : 0);
}
}
namespace spec {
// the file of the first violation of every unit that has any
LOGIC std::set<std::string> firstFiles(const Sets& sets, int n) {
  if (n <= 0) return {};
  auto s = firstFiles(sets, n - 1);
  if (sets[n - 1]->_violations.size() > 0) s.insert(sets[n - 1]->_violations[0].path);
  return s;
}
}
CONTRACT("oclint::AbstractResults::numberOfFilesWithViolations")
int c_nfv(const AbstractResults& self) { return firstFiles(self._resultCollector._collection, self._resultCollector._collection.size()).size(); }
CONTRACT("oclint::AbstractResults::numberOfFiles")
int c_nfiles(const AbstractResults& self) { return self._resultCollector._collection.size(); }
CONTRACT("oclint::AbstractResults::numberOfViolations")
int c_nv(const AbstractResults& self) { return self.allViolations().size(); }
CONTRACT("oclint::AbstractResults::numberOfViolationsWithPriority")
int c_np(const AbstractResults& self, int priority) {
  Vs v = self.allViolations();
  return withPriority(v, priority, v.size());
}
CONTRACT("oclint::AbstractResults::numberOfErrors")
int c_ne(const AbstractResults& self) { return self.allErrors().size(); }
CONTRACT("oclint::AbstractResults::hasErrors")
bool c_he(const AbstractResults& self) { return self.allErrors().size() > 0; }
CONTRACT("oclint::AbstractResults::numberOfWarnings")
int c_nw(const AbstractResults& self) { return self.allWarnings().size(); }
CONTRACT("oclint::AbstractResults::hasWarnings")
bool c_hw(const AbstractResults& self) { return self.allWarnings().size() > 0; }
CONTRACT("oclint::AbstractResults::numberOfCheckerBugs")
int c_nb(const AbstractResults& self) { return self.allCheckerBugs().size(); }
CONTRACT("oclint::AbstractResults::hasCheckerBugs")
bool c_hb(const AbstractResults& self) { return self.allCheckerBugs().size() > 0; }
