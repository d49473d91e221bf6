// C10: options from the command line and from configuration files.
// cppvc: unroll=3
#include "cppvc.h"
#include "oclint-driver/lib/ConfigFile.cpp"
#include "oclint-driver/lib/Options.cpp"
#include "oclint-driver/lib/RulesetFilter.cpp"
using namespace oclint::option;
namespace spec {
typedef std::vector<std::string> Texts;
// the thresholds recorded so far (C09: the last value given for a key is the one that counts)
std::map<std::string, std::string> thresholds;
// what is in a configuration file
ConfigFile read(const std::string& path);
// the working directory, and the directory of the program
std::string here();
std::string home(const char* program);
// an option's value from a file counts when the command line does not give it
template <class T> void update(llvm::cl::opt<T>& a, const std::optional<T>& v) { if (v.has_value() && a.getNumOccurrences() == 0) a.setValue(v.value()); }
inline std::optional<int> number(int v) { return v == INT_MIN ? std::optional<int>() : std::optional<int>(v); }
inline std::optional<std::string> text(const std::string& v) { return v == "" ? std::optional<std::string>() : std::optional<std::string>(v); }
inline std::optional<bool> flag(TriState v) { return v == TRUE ? std::optional<bool>(true) : v == FALSE ? std::optional<bool>(false) : std::optional<bool>(); }
LOGIC std::map<std::string, std::string> with(std::map<std::string, std::string> before, const std::vector<RuleConfigurationPair>& v, int n) {
  if (n <= 0) return before;
  std::map<std::string, std::string> r = with(before, v, n - 1);
  r[v[n - 1]._key] = v[n - 1]._value;
  return r;
}
LOGIC std::map<std::string, std::string> withArguments(std::map<std::string, std::string> before, const Texts& v, int n) {
  if (n <= 0) return before;
  std::map<std::string, std::string> r = withArguments(before, v, n - 1);
  std::string s = v[n - 1];
  size_t i = s.find_last_of("=");
  if (i == std::string::npos) r[s] = s;
  else r[s.substr(0, i)] = s.substr(i + 1);
  return r;
}
LOGIC Texts appended(Texts before, const Texts& v, int n) { if (n <= 0) return before; return cppvc::append(appended(before, v, n - 1), std::string(v[n - 1])); }
typedef std::set<std::string> Names;
LOGIC Names adding(Names before, const Texts& v, int n) { if (n <= 0) return before; Names r = adding(before, v, n - 1); r.insert(v[n - 1]); return r; }
LOGIC Names removing(Names before, const Texts& v, int n) { if (n <= 0) return before; Names r = removing(before, v, n - 1); r.erase(v[n - 1]); return r; }
inline void enable(const Texts& v) { filter._enabled = adding(filter._enabled, v, v.size()); filter._disabled = removing(filter._disabled, v, v.size()); }
inline void disable(const Texts& v) { filter._disabled = adding(filter._disabled, v, v.size()); filter._enabled = removing(filter._enabled, v, v.size()); }
LOGIC std::map<std::string, std::string> thresholdsAfter(std::map<std::string, std::string> m, const std::string& path) { return with(m, read(path)._ruleConfigurations, read(path)._ruleConfigurations.size()); }
LOGIC Texts pathsAfter(Texts m, const std::string& path) { return appended(m, read(path)._rulePaths, read(path)._rulePaths.size()); }
LOGIC Names enabledAfter(Names m, const std::string& path) { return removing(adding(m, read(path)._rules, read(path)._rules.size()), read(path)._disableRules, read(path)._disableRules.size()); }
LOGIC Names disabledAfter(Names m, const std::string& path) { return adding(removing(m, read(path)._rules, read(path)._rules.size()), read(path)._disableRules, read(path)._disableRules.size()); }
inline void consult(const std::string& path) {
  ConfigFile f = read(path);
  thresholds = thresholdsAfter(thresholds, path);
  cppvc::become(argRulesPath, pathsAfter(argRulesPath, path));
  filter._enabled = enabledAfter(filter._enabled, path);
  filter._disabled = disabledAfter(filter._disabled, path);
  update(argOutput, text(f._output));
  update(argReportType, text(f._reportType));
  update(argMaxP1, number(f._maxP1));
  update(argMaxP2, number(f._maxP2));
  update(argMaxP3, number(f._maxP3));
  update(argGlobalAnalysis, flag(f._enableGlobalAnalysis));
  update(argClangChecker, flag(f._clangChecker));
  update(argDuplications, flag(f._allowDuplicatedViolations));
}
}
ASSUME("oclint::RuleConfiguration::addConfiguration") void a_add(std::string k, std::string v) { spec::thresholds[k] = v; }
ASSUME("oclint::option::ConfigFile::ConfigFile") void a_file(ConfigFile& self, const std::string& path) { self = spec::read(path); }
namespace spec {
// what a file gives for a key, and what the option is when the file does not give the key
template <class T> T given(const std::string& key, const T& otherwise);
}
#define KEY(N, T) ASSUME("llvm::yaml::IO::mapOptional") void a_key##N(llvm::yaml::IO& self, const char* key, T& v) { v = spec::given<T>(key, v); }
KEY(1, spec::Texts) KEY(2, std::vector<RuleConfigurationPair>) KEY(3, std::string) KEY(4, int) KEY(5, TriState)
CONTRACT("oclint::option::RuleConfigurationPair::mapping") void c_pair(RuleConfigurationPair& self, llvm::yaml::IO& io) {
  self._key = spec::given<std::string>("key", self._key);
  self._value = spec::given<std::string>("value", self._value);
}
CONTRACT("oclint::option::ConfigFile::mapping") void c_mapping(ConfigFile& self, llvm::yaml::IO& io) {
  self._rules = spec::given<spec::Texts>("rules", self._rules);
  self._disableRules = spec::given<spec::Texts>("disable-rules", self._disableRules);
  self._rulePaths = spec::given<spec::Texts>("rule-paths", self._rulePaths);
  self._ruleConfigurations = spec::given<std::vector<RuleConfigurationPair>>("rule-configurations", self._ruleConfigurations);
  self._output = spec::given<std::string>("output", self._output);
  self._reportType = spec::given<std::string>("report-type", self._reportType);
  self._maxP1 = spec::given<int>("max-priority-1", self._maxP1);
  self._maxP2 = spec::given<int>("max-priority-2", self._maxP2);
  self._maxP3 = spec::given<int>("max-priority-3", self._maxP3);
  self._clangChecker = spec::given<TriState>("enable-clang-static-analyzer", self._clangChecker);
  self._allowDuplicatedViolations = spec::given<TriState>("allow-duplicated-violations", self._allowDuplicatedViolations);
  self._enableGlobalAnalysis = spec::given<TriState>("enable-global-analysis", self._enableGlobalAnalysis);
}
CONTRACT("createOptionalString") std::optional<std::string> c_text(const std::string& v) { return spec::text(v); }
CONTRACT("createOptionalInt") std::optional<int> c_int(int v) { return spec::number(v); }
CONTRACT("createOptionalBool") std::optional<bool> c_bool(const TriState v) { return spec::flag(v); }
CONTRACT("configFilePaths") std::vector<std::string> c_paths() {
  std::vector<std::string> v;
  v.push_back(executablePath + "/../etc/oclint");
  if (homePath() != "") v.push_back(homePath() + "/.oclint");
  v.push_back(absoluteWorkingPath + "/.oclint");
  return v;
}
CONTRACT("updateArgIfSet") void c_update1(llvm::cl::opt<std::string>& a, const std::optional<std::string>& v) { spec::update(a, v); }
CONTRACT("updateArgIfSet") void c_update2(llvm::cl::opt<int>& a, const std::optional<int>& v) { spec::update(a, v); }
CONTRACT("updateArgIfSet") void c_update3(llvm::cl::opt<bool>& a, const std::optional<bool>& v) { spec::update(a, v); }
CONTRACT("oclint::RulesetFilter::enableRule") void c_enable(oclint::RulesetFilter& self, const std::string& n) { self._enabled.insert(n); self._disabled.erase(n); }
CONTRACT("oclint::RulesetFilter::disableRule") void c_disable(oclint::RulesetFilter& self, const std::string& n) { self._disabled.insert(n); self._enabled.erase(n); }
CONTRACT("processConfigFile") void c_process(const std::string& path) { spec::consult(path); }
ASSUME("preserveWorkingPath") void a_here() { absoluteWorkingPath = spec::here(); }
ASSUME("preserveExecutablePath") void a_program(const char* argv) { executablePath = spec::home(argv); }
namespace spec {
inline void files() {
  consult(executablePath + "/../etc/oclint");
  if (homePath() != "") consult(homePath() + "/.oclint");
  consult(absoluteWorkingPath + "/.oclint");
}
}
CONTRACT("processConfigFiles") void c_files() { spec::files(); }
CONTRACT("oclint::option::process") void c_main(const char* argv) {
  absoluteWorkingPath = spec::here();
  executablePath = spec::home(argv);
  spec::files();
  spec::thresholds = spec::withArguments(spec::thresholds, argRuleConfiguration, argRuleConfiguration.size());
  spec::enable(argEnabledRules);
  spec::disable(argDisabledRules);
}
#define GET(NAME, T, WHAT) CONTRACT("oclint::option::" #NAME) T c_##NAME() { return WHAT; }
GET(maxP1, int, argMaxP1)
GET(maxP2, int, argMaxP2)
GET(maxP3, int, argMaxP3)
GET(reportType, std::string, argReportType)
GET(hasOutputPath, bool, argOutput != "-")
GET(enableGlobalAnalysis, bool, argGlobalAnalysis)
GET(enableClangChecker, bool, argClangChecker)
GET(allowDuplicatedViolations, bool, argDuplications)
GET(showEnabledRules, bool, argListEnabledRules)
CONTRACT("oclint::option::outputPath") std::string c_outputPath() {
  std::string o = argOutput;
  REQUIRES(o != "");
  return o[0] == '/' ? o : absoluteWorkingPath + "/" + o;
}
CONTRACT("oclint::option::rulesPath") std::vector<std::string> c_rulesPath() {
  std::vector<std::string> v;
  if (argRulesPath.size() == 0) v.push_back(executablePath + "/../lib/oclint/rules");
  else v = argRulesPath;
  return v;
}
CONTRACT("oclint::option::reporterPath") std::string c_reporterPath() { return executablePath + "/../lib/oclint/reporters"; }
