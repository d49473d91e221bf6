#include "rules.h"
#include "specs/s08.h"
using namespace ::rules;
static void fill() {
  auto& t = table();
  t["destructor of virtual class"] = {CXX, nullptr, {onDecl<CXXRecordDecl>(spec::virtualClass)}};
  t["base class destructor should be virtual or protected"] = {CXX, nullptr, {onDecl<CXXRecordDecl>(spec::baseDestructor)}};
  t["avoid default arguments on virtual methods"] = {CXX, nullptr, {onDecl<CXXMethodDecl>(spec::defaultArguments)}};
  t["avoid private static members"].handlers = {onDecl<VarDecl>(spec::privateStaticField), onDecl<CXXMethodDecl>(spec::privateStaticMethod)};
}
static void c(h::Rng& r) { compare(random(r, "S08")); }
int main(int argc, char** argv) { fill(); only() = CXX | OBJC; return h::run(argc, argv, {{"S08", c}}); }
