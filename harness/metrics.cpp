// Replay harness for the metrics: generated functions, measured by the real code and by counting on the generator's own tree.
#include "gen.h"
#include <climits>
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/ASTUnit.h>
#include <clang/Tooling/Tooling.h>
#include "oclint/metric/CyclomaticComplexityMetric.h"
#include "oclint/metric/NPathComplexityMetric.h"
#include "oclint/metric/NcssMetric.h"
#include "oclint/metric/StmtDepthMetric.h"
using namespace gen;
static int decisions(const S& s);
static int decisions(const E& e) {
  if (!e) return 0;
  int n = e->k == EK::Logic || e->k == EK::Cond;
  for (auto& c : e->c) n += decisions(c);
  if (e->body) n += decisions(e->body);
  return n;
}
static int decisions(const S& s) {
  if (!s) return 0;
  int n = s->k == SK::If || s->k == SK::For || s->k == SK::ForIn || s->k == SK::While || s->k == SK::Do || s->k == SK::Case || s->k == SK::Catch || s->k == SK::OCatch;
  n += decisions(s->a) + decisions(s->b) + decisions(s->init);
  for (auto& c : s->c) n += decisions(c);
  return n;
}
typedef __int128 Big;
static Big cap(Big b) { return b > ((Big)1 << 62) ? (Big)1 << 62 : b; }
static Big ops(const E& e) {
  if (!e) return 0;
  switch (e->k) {
    case EK::Logic: return 1 + ops(e->c[0]) + ops(e->c[1]);
    case EK::Cond: return 2 + ops(e->c[0]) + ops(e->c[1]) + ops(e->c[2]);
    case EK::Paren: case EK::Cast: return ops(e->c[0]);
    default: return 0;
  }
}
static Big paths(const S& s) {
  if (!s) return 1;
  switch (s->k) {
    case SK::Block: { Big p = 1; for (auto& c : s->c) p = cap(p * paths(c)); return p; }
    case SK::If: return cap(ops(s->a) + paths(s->c[0]) + (s->c[1] ? paths(s->c[1]) : 1));
    case SK::While: case SK::Do: return cap(ops(s->a) + paths(s->c[0]) + 1);
    case SK::For: return cap(1 + ops(s->a) + ops(s->b) + paths(s->c[0]) + 1);
    case SK::ForIn: return cap(paths(s->c[0]) + 2);
    case SK::Case: case SK::Default: return paths(s->c[0]);
    case SK::Switch: {
      if (s->c[0]->k != SK::Block) return cap(ops(s->a) + paths(s->c[0]));
      Big sum = ops(s->a);
      auto& b = s->c[0]->c;
      for (size_t i = 0; i < b.size();) {
        if (b[i]->k != SK::Case && b[i]->k != SK::Default) { i++; continue; }   // unreachable before the first label
        Big part = paths(b[i]);
        size_t j = i + 1;
        while (j < b.size() && b[j]->k != SK::Case && b[j]->k != SK::Default) part = cap(part * paths(b[j++]));
        sum = cap(sum + part);
        i = j;
      }
      return sum;
    }
    default: return 1;
  }
}
static int ncss(const S& s) {
  if (!s) return 0;
  int n = 0;
  for (auto& c : s->c) n += ncss(c);
  switch (s->k) {
    case SK::Null: return 0;
    case SK::Block: return n;
    case SK::If: return n + 1 + (s->c[1] ? 1 : 0);
    case SK::Do: return n + 2;
    case SK::Label: return 1;
    default: return n + 1;
  }
}
static int depth(const S& s) {
  if (!s) return 0;
  int n = 0;
  if (s->k == SK::Label) return 0;
  for (auto& c : s->c) n = std::max(n, depth(c));
  return n + (s->k == SK::Block);
}
struct Finder : clang::RecursiveASTVisitor<Finder> {
  std::vector<clang::FunctionDecl*> fs;
  bool VisitFunctionDecl(clang::FunctionDecl* f) { if (f->getDeclName().isIdentifier() && f->getName().starts_with("target")) fs.push_back(f); return true; }
};
static void metric(h::Rng& r) {
  std::string which = h::ctx().property;
  int lang = r.below(4);   // c, cpp, m, mm
  bool cpp = lang == 1 || lang == 3, objc = lang >= 2;
  std::string code;
  if (objc) code += "@interface Root @end\nRoot *root; id coll;\n";
  if (cpp) code += "int fn(int); template <typename T> int fn(T t) { return 0; }\n"; else code += "int fn(int);\n";
  std::vector<S> bodies;
  int nf = r.range(1, 2);
  for (int i = 0; i < nf; i++) {
    Gen g(r);
    g.cpp = cpp; g.objc = objc;
    g.limit = r.chance(20) ? 200 : 50;
    S b = g.block(r.range(2, 5));
    if (r.chance(which == "M02" ? 30 : 10)) {   // many parts in a row
      int n = r.range(5, 45);
      for (int k = 0; k < n; k++) { S s = Gen::ms(SK::If, {Gen::ms(SK::Block), S()}); s->a = g.expr(1); b->c.push_back(s); }
      if (r.chance(50)) {
        S w = Gen::ms(r.chance(50) ? SK::While : SK::Switch); w->a = g.expr(1);
        if (w->k == SK::Switch) { S cs = Gen::ms(SK::Case, {b}), c2 = Gen::ms(SK::Default, {b}); cs->t = "77"; w->c = {Gen::ms(SK::Block, {cs, c2})}; if (g.labels || g.decls) w->c[0]->c.pop_back(); }
        else w->c = {b};
        b = Gen::ms(SK::Block, {w});
      }
    }
    Gen::repair(b);
    code += "int target" + h::str(i) + "(int a, int b, int c, int d)" + g.gap() + g.text(b) + "\n";
    bodies.push_back(b);
  }
  if (r.chance(30)) code += "int target9(int a);\n";
  static const char* names[] = {"input.c", "input.cpp", "input.m", "input.mm"};
  { std::ofstream f("current"); f << names[lang] << "\n" << code; }
  std::vector<std::string> args = {"-w", "-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions", "-ferror-limit=3"};
  if (!cpp) args.push_back("-std=gnu99"); else args.push_back("-std=c++17");
  std::unique_ptr<clang::ASTUnit> ast;
  { h::Parsing parsing; ast = clang::tooling::buildASTFromCodeWithArgs(code, args, names[lang]);}
  if (!ast || ast->getDiagnostics().hasErrorOccurred()) {
    static int bad = 0;
    if (++bad > 50 && bad > h::ctx().cases / 2) { std::cerr << "generated code does not compile:\n" << code; exit(4); }
    return;
  }
  Finder f;
  f.TraverseDecl(ast->getASTContext().getTranslationUnitDecl());
  oclint::CyclomaticComplexityMetric ccn;
  for (auto* fd : f.fs) {
    std::string name = fd->getNameAsString();
    if (name == "target9") {
      if (which == "M03" && getNcssCount(fd) != 0) h::fail("a declaration without body has statements", code, "0", h::str(getNcssCount(fd)));
      if (which == "M01" && ccn.calculate(fd) != 1) h::fail("a declaration without body has decision points", code, "1", h::str(ccn.calculate(fd)));
      continue;
    }
    const S& b = bodies[name[6] - '0'];
    long long want = 0, got = 0, again = 0;
    if (which == "M01") { want = decisions(b) + 1; got = ccn.calculate(fd); again = getCyclomaticComplexity(fd); }
    if (which == "M02") { Big p = paths(b); want = p > INT_MAX ? INT_MAX : (long long)p; got = oclint::NPathComplexityMetric().nPath(fd->getBody()); again = getNPathComplexity(fd->getBody()); }
    if (which == "M03") { want = ncss(b) + 1; got = getNcssCount(fd); again = oclint::NcssMetric().ncss(fd->getBody()) + 1; }
    if (which == "M04") { want = depth(b); got = getStmtDepth(fd->getBody()); again = oclint::StmtDepthMetric().depth(fd->getBody()); }
    if (want != got || want != again) h::fail("measure of " + name + " (" + names[lang] + ")", code, h::str(want), h::str(got) + " / " + h::str(again));
    if (want > 3) h::ctx().nontrivial++;
    if (want > 5 && code.size() < 400) h::sample(code + " -> " + h::str(want));
  }
}
int main(int argc, char** argv) { return h::run(argc, argv, {{"M01", metric}, {"M02", metric}, {"M03", metric}, {"M04", metric}}); }
