#include "rules.h"
#include "specs/s05.h"
using namespace rules;
namespace spec {
bool same(ASTContext& c, const Expr* a, const Expr* b) { llvm::FoldingSetNodeID x, y; a->Profile(x, c, true); b->Profile(y, c, true); return x == y; }
}
template <class K> static bool bitwiseUnder(const K* s) {
  if (!s->getCond()) return false;
  for (auto* b : under<BinaryOperator>((Stmt*)s->getCond())) if (b->getOpcode() == BO_And || b->getOpcode() == BO_Or || b->getOpcode() == BO_Xor) return true;
  return false;
}
static void fill() {
  auto& t = table();
  t["broken oddness check"].handlers = {onStmt<BinaryOperator>(spec::brokenOddness)};
  t["constant if expression"].handlers = {onStmt<IfStmt>(spec::constantIf)};
  t["constant conditional operator"].handlers = {onStmt<ConditionalOperator>(spec::constantConditional)};
  t["double negative"].handlers = {onStmt<UnaryOperator>(spec::doubleNegative)};
  t["multiple unary operator"].handlers = {onStmt<UnaryOperator>(spec::multipleUnary)};
  t["inverted logic"].handlers = {onStmt<IfStmt>(spec::invertedIf), onStmt<ConditionalOperator>(spec::invertedConditional)};
  t["redundant conditional operator"].handlers = {onStmt<ConditionalOperator>(spec::redundantConditional)};
  t["redundant if statement"].handlers = {onStmt<IfStmt>(spec::redundantIf)};
  t["redundant local variable"].handlers = {onStmt<CompoundStmt>(spec::redundantLocal)};
  t["useless parentheses"].handlers = {onStmt<IfStmt>(spec::uselessInIf), onStmt<ReturnStmt>(spec::uselessInReturn), onDecl<VarDecl>(spec::uselessInVar)};
  t["unnecessary null check for dealloc"] = {CXX, {}, {onStmt<IfStmt>(spec::nullCheckBeforeDelete)}};
  auto bit = [](oclint::RuleBase* r, Stmt* s) {
    auto *i = dyn_cast<IfStmt>(s); auto* w = dyn_cast<WhileStmt>(s); auto* d = dyn_cast<DoStmt>(s); auto* c = dyn_cast<ConditionalOperator>(s);
    if (i && bitwiseUnder(i)) spec::bitwise(r, i, nullptr, nullptr, nullptr);
    if (w && bitwiseUnder(w)) spec::bitwise(r, nullptr, w, nullptr, nullptr);
    if (d && bitwiseUnder(d)) spec::bitwise(r, nullptr, nullptr, d, nullptr);
    if (c && bitwiseUnder(c)) spec::bitwise(r, nullptr, nullptr, nullptr, c);
  };
  t["bitwise operator in conditional"].handlers = {onStmt<Stmt>(bit)};
}
static void c(h::Rng& r) { compare(random(r, "S05")); }
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S05", c}}); }
