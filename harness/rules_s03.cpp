#include "rules.h"
#include "specs/s03.h"
using namespace rules;
namespace spec {
bool dereferenced(ValueDecl* v, Expr* e) { for (auto* m : under<MemberExpr>(e)) if (reaches(v, m)) return true; return false; }
bool messaged(ValueDecl* v, Expr* e) { for (auto* m : under<ObjCMessageExpr>(e)) if (sends(v, m)) return true; return false; }
}
static void fill() {
  auto& t = table();
  t["broken null check"] = {C | CXX, {}, {onStmt<BinaryOperator>(spec::brokenNull)}};
  t["broken nil check"] = {OBJC, {}, {onStmt<BinaryOperator>(spec::brokenNil)}};
  t["misplaced null check"] = {C | CXX, {}, {onStmt<BinaryOperator>(spec::misplacedNull)}};
  t["misplaced nil check"] = {OBJC, {}, {onStmt<BinaryOperator>(spec::misplacedNil)}};
  t["redundant nil check"] = {OBJC, {}, {onStmt<BinaryOperator>(spec::redundantNil)}};
}
static void c(h::Rng& r) { compare(random(r, "S03")); }
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S03", c}}); }
