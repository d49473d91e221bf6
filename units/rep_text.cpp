// R01: the text report.
#include "cppvc.h"
#include "oclint/Constants.h"
#include "oclint-reporters/reporters/TextReporter.cpp"

namespace spec {
typedef std::vector<Violation> Vs;
inline std::string num(int n) { return std::to_string(n); }
inline std::string place(const Violation& v) { return v.path + ":" + num(v.startLine) + ":" + num(v.startColumn); }
inline std::string line(const Violation& v) {
  return place(v) + ": " + v.rule->name() + " [" + v.rule->category() + "|P" + num(v.rule->priority()) + "] " + v.message;
}
LOGIC std::string lines(const Vs& vs, int n) {
  if (n <= 0) return "";
  return lines(vs, n - 1) + line(vs[n - 1]) + "\n";
}
inline std::string plain(const Violation& v) { return place(v) + ": " + v.message; }
LOGIC std::string plains(const Vs& vs, int n) {
  if (n <= 0) return "";
  return plains(vs, n - 1) + plain(vs[n - 1]) + "\n";
}
inline std::string section(const Vs& vs, const std::string& head) { return "\n" + head + "\n\n" + plains(vs, vs.size()); }
inline std::string summary(Results& r) {
  return "Summary: TotalFiles=" + num(r.numberOfFiles()) + " FilesWithViolations=" + num(r.numberOfFilesWithViolations()) +
         " P1=" + num(r.numberOfViolationsWithPriority(1)) + " P2=" + num(r.numberOfViolationsWithPriority(2)) +
         " P3=" + num(r.numberOfViolationsWithPriority(3)) + " ";
}
inline std::string text(Results& r) {
  std::string s;
  if (r.hasErrors())
    s += section(r.allErrors(), "Compiler Errors:\n(please be aware that these errors will prevent OCLint from analyzing this source code)");
  if (r.hasWarnings()) s += section(r.allWarnings(), "Compiler Warnings:");
  if (r.hasCheckerBugs()) s += section(r.allCheckerBugs(), "Clang Static Analyzer Results:");
  Vs v = r.allViolations();
  return s + "\n\nOCLint Report\n\n" + summary(r) + "\n\n" + lines(v, v.size()) + "\n[OCLint (" + Constants::homepage() + ") v" + Constants::version() + "]\n";
}
}
using namespace spec;
CONTRACT("TextReporter::writeViolation")
void c_wv(TextReporter& self, std::ostream& out, const Violation& v) { out << line(v); }
CONTRACT("TextReporter::writeViolations")
void c_wvs(TextReporter& self, std::ostream& out, Vs vs) { out << lines(vs, vs.size()); }
CONTRACT("TextReporter::writeCompilerErrorOrWarning")
void c_wc(TextReporter& self, std::ostream& out, const Violation& v) { out << plain(v); }
CONTRACT("TextReporter::writeCompilerDiagnostics")
void c_wcs(TextReporter& self, std::ostream& out, Vs vs, std::string head) { out << section(vs, head); }
CONTRACT("TextReporter::writeSummary")
void c_ws(TextReporter& self, std::ostream& out, Results& r) { out << summary(r); }
CONTRACT("TextReporter::report")
void c_report(TextReporter& self, Results* r, std::ostream& out) { out << text(*r); }
CONTRACT("TextReporter::name")
std::string c_name(const TextReporter& self) { return "text"; }
