// R01: the Xcode report.
#include "cppvc.h"
#include "oclint-reporters/reporters/XcodeReporter.cpp"

namespace spec {
typedef std::vector<Violation> Vs;
inline std::string num(int n) { return std::to_string(n); }
inline std::string line(const Violation& v) {
  return v.path + ":" + num(v.startLine) + ":" + num(v.startColumn) + ": warning: " + v.rule->name() + " [" + v.rule->category() + "|P" +
         num(v.rule->priority()) + "] " + v.message;
}
LOGIC std::string lines(const Vs& vs, int n) {
  if (n <= 0) return "";
  return lines(vs, n - 1) + line(vs[n - 1]) + "\n";
}
}
using namespace spec;
CONTRACT("XcodeReporter::writeViolation")
void c_wv(XcodeReporter& self, std::ostream& out, const Violation& v) { out << line(v); }
CONTRACT("XcodeReporter::report")
void c_report(XcodeReporter& self, Results* r, std::ostream& out) {
  Vs v = r->allViolations();
  out << lines(v, v.size());
}
CONTRACT("XcodeReporter::name")
std::string c_name(const XcodeReporter& self) { return "xcode"; }
