// C12: the identifier of a rule.
#include "cppvc.h"
#include "oclint-core/lib/RuleBase.cpp"

namespace spec {
// the first n characters of a name, the one that starts it or follows a non-letter in upper case
LOGIC std::string cased(const std::string& name, int n) {
  if (n <= 0) return "";
  char c = name[n - 1];
  if (n == 1) c = toupper(c);
  else if (!isalpha(name[n - 2]) && islower(c)) c = toupper(c);
  std::string s = cased(name, n - 1);
  s.push_back(c);
  return s;
}
// the letters among the first n characters
LOGIC std::string letters(const std::string& s, int n) {
  if (n <= 0) return "";
  std::string t = letters(s, n - 1);
  if (isalpha(s[n - 1])) t.push_back(s[n - 1]);
  return t;
}
inline std::string camel(const std::string& name) {
  std::string c = cased(name, name.size());
  return letters(c, c.size());
}
}
using namespace spec;
CONTRACT("oclint::RuleBase::identifier")
std::string c_identifier(const RuleBase& self) {
  std::string n = self.name();
  return camel(n);
}
CONTRACT("oclint::RuleBase::attributeName")
std::string c_attributeName(const RuleBase& self) { return self.name(); }
