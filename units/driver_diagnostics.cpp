// C05: compiler diagnostics.
#include "cppvc.h"
#include "oclint-core/lib/Violation.cpp"
#include "oclint-core/lib/ViolationSet.cpp"
#include "oclint-core/lib/ResultCollector.cpp"
#include "oclint-driver/lib/DiagnosticDispatcher.cpp"
using clang::DiagnosticsEngine;
using namespace oclint;
namespace spec {
// what clang makes of a diagnostic
std::string formatted(const clang::Diagnostic& d);
struct Where { std::string file; int line, column; };
inline Where where(const clang::Diagnostic& d) {
  Where w;
  w.file = ""; w.line = 0; w.column = 0;
  if (!d.hasSourceManager()) return w;
  clang::SourceManager& sm = d.getSourceManager();
  clang::SourceLocation at = d.getLocation();
  w.line = sm.getPresumedLineNumber(at);
  w.column = sm.getPresumedColumnNumber(at);
  w.file = sm.getFilename(at).str();
  if (w.file == "" && at.isMacroID()) w.file = sm.getFilename(sm.getExpansionLoc(at)).str();
  return w;
}
inline Violation entry(const clang::Diagnostic& d) {
  Where w = where(d);
  return Violation(nullptr, w.file, w.line, w.column, 0, 0, formatted(d));
}
}
using namespace spec;
ASSUME("clang::DiagnosticConsumer::HandleDiagnostic") void a_base(clang::DiagnosticConsumer& self, DiagnosticsEngine::Level l, const clang::Diagnostic& d) {}
ASSUME("clang::Diagnostic::FormatDiagnostic") void a_format(const clang::Diagnostic& self, llvm::SmallVectorImpl<char>& out) { cppvc::become(out, formatted(self)); }
ASSUME("oclint::ResultCollector::getInstance") ResultCollector* a_instance() { return _singleton; }
CONTRACT("oclint::DiagnosticDispatcher::HandleDiagnostic")
void c_handle(DiagnosticDispatcher& self, DiagnosticsEngine::Level level, const clang::Diagnostic& d) {
  ResultCollector* r = _singleton;
  if (self._isCheckerCustomer) r->_clangStaticCheckerBugSet->_violations.push_back(entry(d));
  else if (level == DiagnosticsEngine::Warning) r->_compilerWarningSet->_violations.push_back(entry(d));
  else if (level == DiagnosticsEngine::Error || level == DiagnosticsEngine::Fatal) r->_compilerErrorSet->_violations.push_back(entry(d));
}
