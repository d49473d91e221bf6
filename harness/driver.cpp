// Replay harness for the driver: diagnostics, the analysis loop, options, exit status.
#include "h.h"
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <clang/AST/ASTContext.h>
#include <clang/Basic/DiagnosticIDs.h>
#include <clang/Basic/DiagnosticOptions.h>
#include <clang/Basic/FileManager.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/ASTUnit.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include "oclint/Analyzer.h"
#include "oclint/DiagnosticDispatcher.h"
#include "oclint/Options.h"
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/RulesetBasedAnalyzer.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
using namespace oclint;

static std::string show(const Violation& v) {
  return h::quote(v.path) + ":" + h::str(v.startLine) + ":" + h::str(v.startColumn) + ":" + h::str(v.endLine) + ":" + h::str(v.endColumn) + " rule " + (v.rule ? v.rule->name() : "-") + " " + h::quote(v.message);
}
static std::string show(const std::vector<Violation>& vs) { std::string s; for (auto& v : vs) s += "\n  " + show(v); return s; }
static bool same(const Violation& a, const Violation& b) {
  return a.rule == b.rule && a.path == b.path && a.startLine == b.startLine && a.startColumn == b.startColumn && a.endLine == b.endLine && a.endColumn == b.endColumn && a.message == b.message;
}
static bool same(const std::vector<Violation>& a, const std::vector<Violation>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}

static std::string tail(const std::vector<Violation>& v) { return h::str(v.size()) + " entries, the last are" + show(std::vector<Violation>(v.end() - std::min<size_t>(v.size(), 8), v.end())); }
// ---------------------------------------------------------------- C05
static void diagnostics(h::Rng& r) {
  auto opts = llvm::makeIntrusiveRefCnt<clang::DiagnosticOptions>();
  llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs> ids(new clang::DiagnosticIDs());
  bool checker = r.chance(40);
  DiagnosticDispatcher client(checker);
  clang::DiagnosticsEngine engine(ids, opts, &client, false);
  clang::FileSystemOptions fso;
  clang::FileManager files(fso);
  clang::SourceManager sm(engine, files);
  // files of known layout, and a macro expansion
  struct Place { clang::SourceLocation loc; std::string path; int line, column; };
  std::vector<Place> places;
  places.push_back({clang::SourceLocation(), "", 0, 0});
  int nf = r.range(1, 3);
  for (int f = 0; f < nf; f++) {
    std::string name = h::str(f) + (r.chance(50) ? "/a b.c" : ".m"), text;
    int lines = r.range(1, 6);
    std::vector<std::pair<int, int>> at;
    int line = 1, col = 1;
    for (int l = 0; l < lines * 4; l++) {
      bool nl = r.chance(25);
      text += nl ? '\n' : 'x';
      at.push_back({line, col});
      if (nl) { line++; col = 1; } else col++;
    }
    auto id = sm.createFileID(llvm::MemoryBuffer::getMemBufferCopy(text, name));
    auto start = sm.getLocForStartOfFile(id);
    // a buffer without a file has no file name for the source manager; use a virtual file instead
    auto fe = files.getVirtualFileRef("/virtual/" + name, text.size(), 0);
    sm.overrideFileContents(fe, llvm::MemoryBuffer::getMemBufferCopy(text, name));
    id = sm.getOrCreateFileID(fe, clang::SrcMgr::C_User);
    start = sm.getLocForStartOfFile(id);
    if (f == 0) sm.setMainFileID(id);
    for (int k = 0; k < 4; k++) {
      int o = r.below(at.size());
      places.push_back({start.getLocWithOffset(o), "/virtual/" + name, at[o].first, at[o].second});
      int o2 = r.below(at.size());
      auto ex = sm.createExpansionLoc(start.getLocWithOffset(o2), start.getLocWithOffset(o), start.getLocWithOffset(o), 1);
      places.push_back({ex, "/virtual/" + name, at[o].first, at[o].second});
    }
  }
  clang::LangOptions lo;
  client.BeginSourceFile(lo, nullptr);
  ResultCollector* rc = ResultCollector::getInstance();
  std::vector<Violation> errors = rc->getCompilerErrorSet()->getViolations(), warnings = rc->getCompilerWarningSet()->getViolations(), bugs = rc->getClangStaticCheckerBugSet()->getViolations();
  if (errors.size() + warnings.size() + bugs.size() > 3000) {   // keep the comparison cheap
    const_cast<std::vector<Violation>&>(rc->getCompilerErrorSet()->getViolations()).clear();
    const_cast<std::vector<Violation>&>(rc->getCompilerWarningSet()->getViolations()).clear();
    const_cast<std::vector<Violation>&>(rc->getClangStaticCheckerBugSet()->getViolations()).clear();
    errors.clear(); warnings.clear(); bugs.clear();
  }
  int n = r.range(1, 8);
  std::string input = std::string(checker ? "static analyser" : "compiler") + " mode\n";
  engine.setErrorLimit(0);
  bool engineReported = false;
  for (int i = 0; i < n; i++) {
    clang::DiagnosticsEngine::Level lv = (clang::DiagnosticsEngine::Level)r.range(clang::DiagnosticsEngine::Note, clang::DiagnosticsEngine::Fatal);
    if (lv == clang::DiagnosticsEngine::Fatal && i + 1 < n) lv = clang::DiagnosticsEngine::Error;   // nothing is reported after a fatal error
    const Place& p = r.pick(places);
    std::string arg = r.pick(std::vector<std::string>{"", "x", "a b", "%0", "two\nlines", "caf\xc3\xa9", std::string(150, 'w')});
    std::string text = "message " + h::str(i) + " " + arg;
    if (r.chance(75) && (engineReported || lv != clang::DiagnosticsEngine::Note)) {   // the engine drops a note that follows nothing
      engineReported = true;
      auto id = ids->getCustomDiagID((clang::DiagnosticIDs::Level)lv, "message " + h::str(i) + " %0");
      engine.Report(p.loc, id) << arg;
    } else {
      // directly, as the engine does, for any level including ignored
      if (r.chance(30)) lv = clang::DiagnosticsEngine::Ignored;
      auto id = ids->getCustomDiagID(clang::DiagnosticIDs::Remark, "message " + h::str(i) + " %0");
      clang::DiagnosticsEngine other(ids, opts, new clang::IgnoringDiagConsumer(), true);
      bool withManager = r.chance(70);
      if (withManager) other.setSourceManager(&sm);
      {
        auto b = other.Report(p.loc, id) << arg;
        clang::Diagnostic d(&other, b);
        client.HandleDiagnostic(lv, d);
      }
      if (!withManager) { Violation v(nullptr, "", 0, 0, 0, 0, text);
        input += " level " + h::str(lv) + " without a source manager\n";
        if (checker) bugs.push_back(v); else if (lv == clang::DiagnosticsEngine::Warning) warnings.push_back(v); else if (lv >= clang::DiagnosticsEngine::Error) errors.push_back(v);
        continue; }
    }
    Violation v(nullptr, p.path, p.line, p.column, 0, 0, text);
    input += " level " + h::str(lv) + " at " + show(v) + "\n";
    if (checker) bugs.push_back(v);
    else if (lv == clang::DiagnosticsEngine::Warning) warnings.push_back(v);
    else if (lv >= clang::DiagnosticsEngine::Error) errors.push_back(v);
  }
  client.EndSourceFile();
  if (!same(errors, rc->getCompilerErrorSet()->getViolations())) h::fail("compiler errors", input, tail(errors), tail(rc->getCompilerErrorSet()->getViolations()));
  if (!same(warnings, rc->getCompilerWarningSet()->getViolations())) h::fail("compiler warnings", input, tail(warnings), tail(rc->getCompilerWarningSet()->getViolations()));
  if (!same(bugs, rc->getClangStaticCheckerBugSet()->getViolations())) h::fail("checker findings", input, tail(bugs), tail(rc->getClangStaticCheckerBugSet()->getViolations()));
  if (n > 1) h::ctx().nontrivial++;
  if (n > 3) h::sample(input);
}

// ---------------------------------------------------------------- C08
struct Log { int rule; clang::ASTContext* context; RuleCarrier* carrier; };
static std::vector<Log> logged;
static std::vector<std::vector<Violation>> recorded;   // per take-off
struct Recorder : RuleBase {
  int id; std::vector<int> plan; int turn = 0;
  explicit Recorder(int i) : id(i) {}
  void apply() override {
    logged.push_back({id, _carrier->getASTContext(), _carrier});
    recorded.push_back({});
    int n = plan.empty() ? 0 : plan[turn++ % plan.size()];
    for (int k = 0; k < n; k++) {
      Violation v(this, "f" + h::str(k), id, turn, k, 4, "m" + h::str(turn));
      _carrier->addViolation(v.path, v.startLine, v.startColumn, v.endLine, v.endColumn, this, v.message);
      recorded.back().push_back(v);
    }
  }
  const std::string name() const override { return "rule " + h::str(id); }
  const std::string category() const override { return "test"; }
  int priority() const override { return 1 + id % 3; }
};
static void analysis(h::Rng& r) {
  static std::vector<std::unique_ptr<clang::ASTUnit>> units;
  if (units.empty()) for (int i = 0; i < 4; i++) units.push_back(clang::tooling::buildASTFromCode("int v" + h::str(i) + ";", "u" + h::str(i) + ".c"));
  int nr = r.range(0, 5), nc = r.range(0, 6);
  std::vector<Recorder*> pool;
  std::vector<RuleBase*> rules;
  for (int i = 0; i < nr; i++) {
    pool.push_back(new Recorder(i));
    for (int k = 0; k < 4; k++) pool[i]->plan.push_back(r.chance(40) ? 0 : r.range(1, 3));
    rules.push_back(pool[i]);
  }
  std::vector<clang::ASTContext*> contexts;
  std::string input = h::str(nr) + " rules; units";
  for (int i = 0; i < nc; i++) { int k = r.below(4); contexts.push_back(&units[k]->getASTContext()); input += " " + h::str(k); }
  { std::ofstream f("current"); f << input; }
  ResultCollector* rc = ResultCollector::getInstance();
  std::vector<ViolationSet*> before = rc->getCollection();
  logged.clear(); recorded.clear();
  RulesetBasedAnalyzer a(rules);
  std::vector<clang::ASTContext*> given = contexts;
  a.analyze(given);
  std::string want, got;
  for (int c = 0; c < nc; c++) for (int k = 0; k < nr; k++) want += " r" + h::str(k) + "@" + h::str((void*)contexts[c]);
  for (auto& l : logged) got += " r" + h::str(l.rule) + "@" + h::str((void*)l.context);
  if (want != got) h::fail("order of applying rules to translation units", input, want, got);
  const auto& after = rc->getCollection();
  if (after.size() != before.size() + nc) h::fail("number of violation sets", input, h::str(before.size() + nc), h::str(after.size()));
  for (size_t i = 0; i < before.size(); i++) if (before[i] != after[i]) h::fail("earlier violation sets", input, "unchanged", "changed at " + h::str(i));
  std::set<ViolationSet*> distinct(after.begin(), after.end());
  if (distinct.size() != after.size()) h::fail("violation sets", input, "one for each unit", "shared");
  for (int c = 0; c < nc; c++) {
    std::vector<Violation> w;
    for (int k = 0; k < nr; k++) for (auto& v : recorded[c * nr + k]) w.push_back(v);
    if (!same(w, after[before.size() + c]->getViolations())) h::fail("violations of unit " + h::str(c), input, show(w), show(after[before.size() + c]->getViolations()));
  }
  if (nr > 1 && nc > 1) h::ctx().nontrivial++;
  h::sample(input);
  if (after.size() > 2000) const_cast<std::vector<ViolationSet*>&>(rc->getCollection()).clear();
}

// ---------------------------------------------------------------- C10
struct Named : RuleBase {
  std::string n;
  explicit Named(std::string x) : n(x) {}
  void apply() override {}
  const std::string name() const override { return n; }
  const std::string category() const override { return "test"; }
  int priority() const override { return 1; }
};
static void put(const std::string& path, const std::string& text) { std::ofstream f(path); f << text; }
static std::string yaml(h::Rng& r, const std::string& s) {
  bool plain = !s.empty() && s.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") == std::string::npos;
  if (plain && r.chance(50)) return s;
  if (r.chance(40) && s.find('\'') == std::string::npos && s.find('\t') == std::string::npos) return "'" + s + "'";
  std::string q = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { q += '\\'; q += c; } else if (c == '\t') q += "\\t"; else if (c == 'e' && r.chance(30)) q += "\\x65"; else q += c; }
  return q + "\"";
}
static void optionsCase(h::Rng& r) {
  static const std::vector<std::string> names = {"LongLine", "DeadCode", "GotoStatement", "EmptyIf"};
  static const std::vector<std::string> keys = {"LONG_LINE", "NESTED_BLOCK_DEPTH", "K", "k e y"};
  static bool loaded = false;
  if (!loaded) { for (auto& n : names) RuleSet x(new Named(n)); loaded = true; mkdir("opt", 0700); }
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) exit(4);
  std::string root = std::string(cwd) + "/opt";
  // the directories may have a long path
  if (r.chance(15)) for (auto d : {std::string(200, 'd'), std::string(180, 'e')}) { root += "/" + d; mkdir(root.c_str(), 0700); }
  for (auto d : {"/inst", "/inst/bin", "/inst/etc", "/home", "/work"}) mkdir((root + d).c_str(), 0700);
  std::vector<std::string> paths = {root + "/inst/etc/oclint", root + "/home/.oclint", root + "/work/.oclint"};
  auto value = [&] { return r.pick(std::vector<std::string>{"text", "html", "pmd", "/tmp/x", "out put", "a=b", "quo\"te", "it's", "tab\there", "-", "somevalue"}); };
  // the model
  std::map<std::string, std::string> str = {{"output", "-"}, {"report-type", "text"}};
  std::map<std::string, int> num = {{"max-priority-1", 0}, {"max-priority-2", 10}, {"max-priority-3", 20}};
  std::map<std::string, bool> flag = {{"enable-global-analysis", false}, {"enable-clang-static-analyzer", false}, {"allow-duplicated-violations", false}};
  std::map<std::string, std::string> rc;
  std::vector<std::string> rulePaths, filePaths;
  std::set<std::string> enabled, disabled;
  std::string input;
  bool home = r.chance(85);
  int chance = r.pick(std::vector<int>{0, 20, 50, 90});
  for (int f = 0; f < 3; f++) {
    unlink(paths[f].c_str());
    if (r.chance(20)) continue;
    std::vector<std::string> parts;
    bool used = f != 1 || home;
    for (auto& e : str) if (r.chance(chance)) { std::string v = r.chance(10) ? "" : value(); parts.push_back(e.first + ": " + yaml(r, v) + "\n"); if (used && !v.empty()) e.second = v; }
    for (auto& e : num) if (r.chance(chance)) { int v = r.pick(std::vector<int>{0, 1, 2, 10, 20, 30, -1, 2147483647}); parts.push_back(e.first + ": " + h::str(v) + "\n"); if (used) e.second = v; }
    for (auto& e : flag) if (r.chance(chance)) { bool v = r.chance(50); parts.push_back(e.first + ": " + (v ? "true" : "false") + "\n"); if (used) e.second = v; }
    if (r.chance(chance)) {
      int n = r.range(1, 4);
      std::string t = "rule-configurations:\n";
      for (int i = 0; i < n; i++) { std::string k = r.pick(keys), v = r.chance(50) ? h::str(r.range(0, 300)) : value(); t += "  - key: " + yaml(r, k) + "\n    value: " + yaml(r, v) + "\n"; if (used) rc[k] = v; }
      parts.push_back(t);
    }
    if (r.chance(chance)) {
      std::string t = "rule-paths:\n";
      int n = r.range(1, 3);
      for (int i = 0; i < n; i++) { std::string v = "/p" + value(); t += "  - " + yaml(r, v) + "\n"; if (used) filePaths.push_back(v); }
      parts.push_back(t);
    }
    std::vector<std::string> en, dis;
    if (r.chance(chance)) { int n = r.range(1, 3); std::string t = "rules:\n"; for (int i = 0; i < n; i++) { en.push_back(r.pick(names)); t += "  - " + yaml(r, en.back()) + "\n"; } parts.push_back(t); }
    if (r.chance(chance)) { int n = r.range(1, 2); std::string t = "disable-rules:\n"; for (int i = 0; i < n; i++) { dis.push_back(r.pick(names)); t += "  - " + yaml(r, dis.back()) + "\n"; } parts.push_back(t); }
    if (used) {
      for (auto& e : en) { enabled.insert(e); disabled.erase(e); }
      for (auto& e : dis) { disabled.insert(e); enabled.erase(e); }
    }
    std::string text = r.chance(20) ? "---\n" : "";
    while (!parts.empty()) { int k = r.below(parts.size()); text += parts[k]; parts.erase(parts.begin() + k); }
    if (text == "---\n" || text.empty()) text = r.pick(std::vector<std::string>{"", " \n\t\n"});
    put(paths[f], text);
    input += paths[f].substr(root.size()) + ":\n" + text + "\n";
  }
  std::vector<std::string> args = {root + "/inst/bin/oclint"};
  for (auto& e : str) if (r.chance(30)) { std::string v = value(); args.push_back((e.first == "output" ? std::string("-o=") : "-" + e.first + "=") + v); e.second = v; }
  for (auto& e : num) if (r.chance(30)) { e.second = r.pick(std::vector<int>{0, 3, 10, 20, 99}); args.push_back("-" + e.first + "=" + h::str(e.second)); }
  for (auto& e : flag) if (r.chance(30)) { e.second = r.chance(60); args.push_back("-" + e.first + (e.second ? (r.chance(50) ? "" : "=true") : "=false")); }
  for (int i = r.chance(60) ? r.range(1, 4) : 0; i > 0; i--) { std::string k = r.pick(keys), v = r.chance(50) ? h::str(r.range(0, 300)) : r.pick(std::vector<std::string>{"", "x", "v w", "-1", "2.5", "a:b"}); args.push_back("-rc=" + k + "=" + v); rc[k] = v; }
  for (int i = r.chance(40) ? r.range(1, 3) : 0; i > 0; i--) { std::string v = "/r" + h::str(i); args.push_back((r.chance(50) ? "-R" : "-R=") + v); rulePaths.push_back(v); if (args.back()[2] == '=') {} }
  std::vector<std::string> en, dis;
  for (int i = r.chance(40) ? r.range(1, 3) : 0; i > 0; i--) { en.push_back(r.pick(names)); args.push_back("-rule=" + en.back()); }
  for (int i = r.chance(40) ? r.range(1, 3) : 0; i > 0; i--) { dis.push_back(r.pick(names)); args.push_back("-disable-rule=" + dis.back()); }
  for (auto& e : en) { enabled.insert(e); disabled.erase(e); }
  for (auto& e : dis) { disabled.insert(e); enabled.erase(e); }
  for (size_t i = args.size(); i > 2; i--) std::swap(args[i - 1], args[r.range(1, i - 1)]);
  // the lists keep the order of the arguments
  rulePaths.clear();
  for (auto& a : args) { if (a.rfind("-R", 0) == 0) rulePaths.push_back(a.substr(a[2] == '=' ? 3 : 2)); }
  for (auto& a : args) if (a.rfind("-rc=", 0) == 0) { std::string s = a.substr(4); size_t p = s.rfind('='); rc[s.substr(0, p)] = s.substr(p + 1); }
  rulePaths.insert(rulePaths.end(), filePaths.begin(), filePaths.end());
  input += std::string("HOME ") + (home ? "set" : "not set") + "\ncommand line:";
  for (auto& a : args) input += " " + h::quote(a.rfind(root, 0) == 0 ? a.substr(root.size()) : a);
  { std::ofstream f("current"); f << input; }
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir((root + "/work").c_str())) _exit(4);
    if (home) setenv("HOME", (root + "/home").c_str(), 1); else if (r.chance(50)) setenv("HOME", "", 1); else unsetenv("HOME");
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    llvm::cl::ParseCommandLineOptions(argv.size(), argv.data());
    option::process(argv[0]);
    auto eq = [&](const std::string& what, const std::string& want, const std::string& got) { if (want != got) h::fail(what, input, h::quote(want), h::quote(got)); };
    eq("report type", str["report-type"], option::reportType());
    eq("writes to a file", str["output"] == "-" ? "no" : "yes", option::hasOutputPath() ? "yes" : "no");
    eq("output path", str["output"][0] == '/' ? str["output"] : root + "/work/" + str["output"], option::outputPath());
    eq("limit 1", h::str(num["max-priority-1"]), h::str(option::maxP1()));
    eq("limit 2", h::str(num["max-priority-2"]), h::str(option::maxP2()));
    eq("limit 3", h::str(num["max-priority-3"]), h::str(option::maxP3()));
    eq("global analysis", h::str(flag["enable-global-analysis"]), h::str(option::enableGlobalAnalysis()));
    eq("static analyser", h::str(flag["enable-clang-static-analyzer"]), h::str(option::enableClangChecker()));
    eq("duplicates allowed", h::str(flag["allow-duplicated-violations"]), h::str(option::allowDuplicatedViolations()));
    if (rulePaths.empty()) rulePaths.push_back(root + "/inst/bin/../lib/oclint/rules");
    std::string a, b;
    for (auto& p : rulePaths) a += p + "\n";
    for (auto& p : option::rulesPath()) b += p + "\n";
    eq("rule paths", a, b);
    a = b = "";
    for (auto& n : names) if ((enabled.empty() || enabled.count(n)) && !disabled.count(n)) a += n + " ";
    for (auto* x : option::rulesetFilter().filteredRules()) b += x->name() + " ";
    eq("selected rules", a, b);
    for (auto& k : keys) {
      eq("whether a threshold is set for " + h::quote(k), rc.count(k) ? "yes" : "no", RuleConfiguration::hasKey(k) ? "yes" : "no");
      if (rc.count(k)) eq("threshold " + h::quote(k), rc[k], RuleConfiguration::valueForKey(k));
    }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 1) _exit(1);
  if (WIFSIGNALED(status)) h::fail("the program ends abnormally", input, "options processed", "signal " + h::str(WTERMSIG(status)));
  if (status) { std::cerr << "child status " << status << "\n" << input; exit(4); }
  h::ctx().nontrivial += args.size() > 3;
  if (input.size() < 300) h::sample(input);
}
int main(int argc, char** argv) { return h::run(argc, argv, {{"C05", diagnostics}, {"C08", analysis}, {"C10", optionsCase}}); }
