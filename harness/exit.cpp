// Replay harness for the exit status: the real main() with a planned set-up, analysis and report.
#include "h.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/Support/CommandLine.h>
#include "oclint/Driver.h"
#include "oclint/ExitCode.h"
#include "oclint/Options.h"
#include "oclint/Reporter.h"
#include "oclint/ResultCollector.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
using namespace oclint;
int real_main(int argc, const char** argv);
llvm::cl::OptionCategory OCLintOptionCategory("OCLint options");

struct Plan {
  bool badArguments = false, rulesThrow = false, reporterThrow = false, runThrow = false, reportThrow = false, duplicates = false, list = false, output = false, badOutput = false;
  int rules = 1, max[4] = {0, 0, 0, 0};
  std::vector<std::vector<Violation>> units;
  std::vector<Violation> errors, warnings, bugs;
  std::string path;
} plan;
static int reports = 0, runs = 0;
static std::string seen;
static std::string line(const Violation& v) { return v.path + ":" + h::str(v.startLine) + " " + (v.rule ? v.rule->name() : "") + " " + v.message + "\n"; }
struct Planned : RuleBase {
  int p;
  explicit Planned(int x) : p(x) {}
  void apply() override {}
  const std::string name() const override { return "p" + h::str(p); }
  const std::string category() const override { return "test"; }
  int priority() const override { return p; }
};
void dynamicLoadRules(std::string) {
  if (plan.rulesThrow) throw std::runtime_error("no such rules");
  for (int i = 0; i < plan.rules; i++) RuleSet x(new Planned(1 + i % 3));
}
void loadReporter() { if (plan.reporterThrow) throw std::runtime_error("no such reporter"); }
struct Rep : Reporter {
  const std::string name() const override { return "planned"; }
  void report(Results* r, std::ostream& out) override {
    reports++;
    for (auto& v : r->allViolations()) seen += line(v);
    if (plan.reportThrow) throw std::runtime_error("cannot report");
    out << "report " << r->numberOfViolations();
  }
};
Reporter* reporter() { static Rep r; return &r; }
namespace oclint { namespace option {
void process(const char*) {}
std::string workingPath() { return "/"; }
std::string installPrefix() { return "/"; }
std::string binPath() { return "/"; }
std::string libPath() { return "/"; }
std::string etcPath() { return "/"; }
std::string homePath() { return "/"; }
std::vector<std::string> rulesPath() { return {"/rules"}; }
std::string reporterPath() { return "/"; }
bool hasOutputPath() { return plan.output; }
std::string outputPath() { return plan.path; }
std::string reportType() { return "planned"; }
const RulesetFilter& rulesetFilter() { static RulesetFilter f; return f; }
int maxP1() { return plan.max[1]; }
int maxP2() { return plan.max[2]; }
int maxP3() { return plan.max[3]; }
bool showEnabledRules() { return plan.list; }
bool enableGlobalAnalysis() { return false; }
bool enableClangChecker() { return false; }
bool allowDuplicatedViolations() { return plan.duplicates; }
bool enableVerbose() { return false; }
} }
void Driver::run(const clang::tooling::CompilationDatabase&, llvm::ArrayRef<std::string>, Analyzer&) {
  runs++;
  auto* c = ResultCollector::getInstance();
  for (auto& u : plan.units) { auto* s = new ViolationSet(); for (auto& v : u) s->addViolation(v); c->add(s); }
  for (auto& v : plan.errors) c->addError(v);
  for (auto& v : plan.warnings) c->addWarning(v);
  for (auto& v : plan.bugs) c->addCheckerBug(v);
  if (plan.runThrow) throw std::runtime_error("analysis failed");
}
static const char* codes[] = {"SUCCESS", "RULE_NOT_FOUND", "REPORTER_NOT_FOUND", "ERROR_WHILE_PROCESSING", "ERROR_WHILE_REPORTING", "VIOLATIONS_EXCEED_THRESHOLD", "COMPILATION_ERRORS", "COMMON_OPTIONS_PARSER_ERRORS"};
static std::string code(int c) { return c >= 0 && c < 8 ? codes[c] : "status " + h::str(c); }

static void exitCase(h::Rng& r) {
  plan = Plan();
  int trouble = r.chance(30) ? r.below(7) : -1;
  plan.badArguments = trouble == 0; plan.rulesThrow = trouble == 1; plan.rules = trouble == 2 ? 0 : r.range(1, 4);
  plan.reporterThrow = trouble == 3; plan.runThrow = trouble == 4; plan.reportThrow = trouble == 5;
  plan.output = trouble == 6 || r.chance(20); plan.badOutput = trouble == 6;
  plan.path = trouble == 6 ? "no-such-directory/out" : "report.txt";
  plan.duplicates = r.chance(50); plan.list = r.chance(20);
  static Planned rules[4] = {Planned(0), Planned(1), Planned(2), Planned(3)};
  std::string input;
  int n[4] = {0, 0, 0, 0}, base[4];
  for (int p = 1; p <= 3; p++) base[p] = r.pick(std::vector<int>{0, 0, 1, 2, 10, 11, 20, 21, 25});
  int nu = r.range(1, 3);
  plan.units.resize(nu);
  std::vector<Violation> all;
  for (int p = 1; p <= 3; p++)
    for (int i = 0; i < base[p]; i++) all.push_back(Violation(&rules[p], "f.c", i, 1, 2, 3, "m"));
  for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
  size_t distinct = all.size();
  if (r.chance(40)) for (int i = r.range(1, 5); i > 0 && distinct; i--) all.push_back(all[r.below(distinct)]);
  for (auto& v : all) plan.units[r.below(nu)].push_back(v);
  std::vector<Violation> order;
  for (auto& u : plan.units) for (auto& v : u) {
    bool dup = false;
    if (!plan.duplicates) for (auto& o : order) dup |= o.rule == v.rule && o.startLine == v.startLine;
    if (!dup) { order.push_back(v); n[v.rule->priority()]++; }
  }
  for (int p = 1; p <= 3; p++) plan.max[p] = r.chance(50) ? n[p] + r.range(-1, 1) : r.chance(50) ? n[p] : r.pick(std::vector<int>{0, 10, 20, 1000});
  if (r.chance(40)) for (int p = 1; p <= 3; p++) plan.max[p] = n[p] + r.below(2);
  auto some = [&](int chance) { std::vector<Violation> v; if (r.chance(chance)) for (int i = r.range(1, 3); i > 0; i--) v.push_back(Violation(nullptr, "f.c", i, 1, 0, 0, "e")); return v; };
  plan.errors = some(15); plan.warnings = some(30); plan.bugs = some(30);
  int want = SUCCESS;
  if (plan.badArguments) want = COMMON_OPTIONS_PARSER_ERRORS;
  else if (plan.rulesThrow || plan.rules == 0) want = RULE_NOT_FOUND;
  else if (plan.reporterThrow) want = REPORTER_NOT_FOUND;
  else if (plan.runThrow) want = ERROR_WHILE_PROCESSING;
  else if (plan.reportThrow || plan.badOutput) want = ERROR_WHILE_REPORTING;
  else if (!plan.errors.empty()) want = COMPILATION_ERRORS;
  else if (n[1] > plan.max[1] || n[2] > plan.max[2] || n[3] > plan.max[3]) want = VIOLATIONS_EXCEED_THRESHOLD;
  for (int p = 1; p <= 3; p++) input += "priority " + h::str(p) + ": " + h::str(n[p]) + " violations, limit " + h::str(plan.max[p]) + "\n";
  input += h::str(plan.errors.size()) + " errors, " + h::str(plan.warnings.size()) + " warnings, " + h::str(plan.bugs.size()) + " checker findings, duplicates " + (plan.duplicates ? "allowed" : "removed") + ", " + h::str(plan.rules) + " rules\n";
  static const char* troubles[] = {"unknown argument", "loading rules fails", "no rule", "loading the reporter fails", "the analysis fails", "the report fails", "the output file cannot be opened"};
  if (trouble >= 0) input += std::string(troubles[trouble]) + "\n";
  { std::ofstream f("current"); f << input; }
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1); dup2(null, 2);
    const char* good[] = {"oclint", "f.c", "--", "-c"};
    const char* bad[] = {"oclint", "-no-such-option", "f.c", "--", "-c"};
    int got = plan.badArguments ? real_main(5, bad) : real_main(4, good);
    if (got != want) h::fail("exit status", input, code(want), code(got));
    if (want == SUCCESS || want == COMPILATION_ERRORS || want == VIOLATIONS_EXCEED_THRESHOLD) {
      if (reports != 1 || runs != 1) h::fail("number of analyses and reports", input, "1 and 1", h::str(runs) + " and " + h::str(reports));
      std::string w;
      for (auto& v : order) w += line(v);
      if (seen != w) h::fail("violations given to the reporter", input, w, seen);
      if (plan.output) {
        std::ifstream f("report.txt");
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (s != "report " + h::str(order.size())) h::fail("contents of the report file", input, "report " + h::str(order.size()), s);
      }
    }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  unlink("report.txt");
  if (WIFEXITED(status) && WEXITSTATUS(status) == 1) _exit(1);
  if (WIFSIGNALED(status)) h::fail("the program ends abnormally", input, code(want), "signal " + h::str(WTERMSIG(status)));
  if (status) h::fail("the program ends by itself", input, code(want), "status " + h::str(status));
  h::ctx().nontrivial += order.size() > 0;
  h::sample(input);
}
int main(int argc, char** argv) { return h::run(argc, argv, {{"C06", exitCase}}); }
