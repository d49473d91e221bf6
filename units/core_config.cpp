// C09: the rule configuration.
#include "cppvc.h"
#include "oclint-core/lib/RuleConfiguration.cpp"

namespace spec {
typedef std::map<std::string, std::string> Conf;
inline Conf conf() { return _configurations == nullptr ? Conf() : *_configurations; }
}
using namespace spec;
CONTRACT("oclint::RuleConfiguration::addConfiguration")
void c_add(std::string key, std::string value) {
  if (_configurations == nullptr) _configurations = new Conf();
  (*_configurations)[key] = value;
}
CONTRACT("oclint::RuleConfiguration::hasKey")
bool c_has(std::string key) { return conf().count(key) == 1; }
CONTRACT("oclint::RuleConfiguration::valueForKey")
std::string c_value(std::string key) {
  REQUIRES(conf().count(key) == 1);
  return conf()[key];
}
CONTRACT("oclint::RuleConfiguration::removeAll")
void c_removeAll() { _configurations = nullptr; }
CONTRACT("oclint::RuleConfiguration::stringForKey")
std::string c_string(std::string key, std::string d) {
  if (conf().count(key) == 0) return d;
  return conf()[key];
}
CONTRACT("oclint::RuleConfiguration::intForKey")
int c_int(std::string key, int d) {
  if (conf().count(key) == 0) return d;
  return atoi(conf()[key].c_str());
}
CONTRACT("oclint::RuleConfiguration::doubleForKey")
double c_double(std::string key, double d) {
  if (conf().count(key) == 0) return d;
  return atof(conf()[key].c_str());
}
