// Random C, C++ and Objective-C functions, as trees that know how to print themselves.
#ifndef GEN_H
#define GEN_H
#include "h.h"
#include <memory>
namespace gen {
struct Ex;
struct St;
typedef std::shared_ptr<Ex> E;
typedef std::shared_ptr<St> S;
enum class EK { Var, Lit, Call, Bin, Logic, Un, Assign, Cond, Paren, Cast, Lambda };
enum class SK { Null, Expr, Decl, Return, Break, Continue, Goto, Label, Block, If, While, Do, For, Switch, Case, Default, Try, Catch, OTry, OCatch, OFinally, OSync, OPool, ForIn };
struct Ex { EK k; std::string t; std::vector<E> c; S body; };
struct St { SK k; std::string t; E a, b; S init; std::vector<S> c; };   // c: bodies; null pointer: absent
struct Gen {
  h::Rng& r;
  bool cpp = false, objc = false;
  int loops = 0, labels = 0, decls = 0, cases = 0, inSwitch = 0, lambdas = 0, size = 0, limit = 60;
  bool noDecl = false;
  explicit Gen(h::Rng& r) : r(r) {}
  static E mk(EK k, std::string t, std::vector<E> c = {}) { auto e = std::make_shared<Ex>(); e->k = k; e->t = t; e->c = c; return e; }
  static S ms(SK k, std::vector<S> c = {}) { auto s = std::make_shared<St>(); s->k = k; s->c = c; return s; }
  E var() { return mk(EK::Var, std::string(1, "abcd"[r.below(4)])); }
  E expr(int d) {
    size++;
    int w = d <= 0 || size > limit * 3 ? r.below(2) : r.below(12);
    switch (w) {
      case 0: return var();
      case 1: return mk(EK::Lit, h::str(r.below(9)));
      case 2: return mk(EK::Call, "fn", {expr(d - 1)});
      case 3: case 4: { static const char* ops[] = {"+", "-", "*", "<", ">", "==", "!=", "&", "|", ">=", "<=", "^"}; return mk(EK::Bin, ops[r.below(12)], {expr(d - 1), expr(d - 1)}); }
      case 5: case 6: case 7: return mk(EK::Logic, r.chance(50) ? "&&" : "||", {expr(d - 1), expr(d - 1)});
      case 8: { static const char* ops[] = {"!", "-", "~"}; return mk(EK::Un, ops[r.below(3)], {expr(d - 1)}); }
      case 9: return r.chance(40) ? mk(EK::Assign, "=", {var(), expr(d - 1)}) : mk(EK::Cond, "?", {expr(d - 1), expr(d - 1), expr(d - 1)});
      case 10: return r.chance(50) ? mk(EK::Cast, "int", {expr(d - 1)}) : mk(EK::Cond, "?", {expr(d - 1), expr(d - 1), expr(d - 1)});
      default:
        if (cpp && lambdas < 2 && r.chance(20)) {
          lambdas++;
          auto e = mk(EK::Lambda, "");
          int l = loops, s = inSwitch; loops = inSwitch = 0; inLambda++;
          e->body = block(d - 1);
          loops = l; inSwitch = s; inLambda--;
          return e;
        }
        return mk(EK::Paren, "(", {expr(d - 1)});
    }
  }
  int inLambda = 0;
  S simple(int d) {
    switch (r.below(7)) {
      case 0: return ms(SK::Null);
      case 1: if (loops) return ms(r.chance(50) ? SK::Break : SK::Continue); break;
      case 2: if (!inLambda) { S s = ms(SK::Return); s->a = expr(2); return s; } break;
      case 3: if (inSwitch) return ms(SK::Break); break;
      case 4: if (!cpp && labels && r.chance(30)) { S s = ms(SK::Goto); s->t = "L" + h::str(r.below(labels)); return s; } break;
    }
    S s = ms(SK::Expr); s->a = expr(d > 2 ? 2 : d); return s;
  }
  S block(int d) {
    S s = ms(SK::Block);
    bool nd = noDecl; noDecl = false;
    int n = r.below(4) + (r.chance(10) ? 6 : 0);
    for (int i = 0; i < n; i++) s->c.push_back(stmt(d - 1, true));
    noDecl = nd;
    return s;
  }
  S body(int d) { return r.chance(60) ? block(d) : stmt(d - 1, false); }
  S loopBody(int d) { loops++; int s = inSwitch; inSwitch = 0; S b = body(d); inSwitch = s; loops--; return b; }
  // sub: in a block, where declarations and labels may stand
  S stmt(int d, bool inBlock) {
    size++;
    if (d <= 0 || size > limit) return simple(d);
    switch (r.below(22)) {
      case 0: case 1: case 2: { S s = ms(SK::If, {body(d), S()}); s->a = expr(3); if (r.chance(45)) s->c[1] = body(d); return s; }
      case 3: case 4: { S s = ms(SK::While); s->a = expr(3); s->c = {loopBody(d)}; return s; }
      case 5: { S s = ms(SK::Do); s->a = expr(3); s->c = {loopBody(d)}; return s; }
      case 6: case 7: {
        S s = ms(SK::For);
        if (r.chance(60)) { if (r.chance(50)) { s->init = ms(SK::Decl); s->init->t = "v" + h::str(decls++); s->init->a = expr(1); } else { s->init = ms(SK::Expr); s->init->a = expr(2); } }
        if (r.chance(70)) s->a = expr(3);
        if (r.chance(60)) s->b = expr(2);
        s->c = {loopBody(d)};
        return s;
      }
      case 8: case 9: return switch_(d);
      case 10: if (inBlock) return block(d); break;
      case 11: case 12:
        if (inBlock && !noDecl) { S s = ms(SK::Decl); s->t = "v" + h::str(decls++); if (r.chance(70)) s->a = expr(2); return s; }
        break;
      case 13: if (!cpp && inBlock && !inLambda && r.chance(40)) { S s = ms(SK::Label, {ms(SK::Null)}); s->t = "L" + h::str(labels++); return s; } break;
      case 14: case 15: if (cpp) {
        S s = ms(SK::Try, {block(d)});
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) { S c = ms(SK::Catch, {block(d)}); static const char* t[] = {"int", "char", "..."}; c->t = t[i]; s->c.push_back(c); }
        return s;
      } break;
      case 16: case 17: if (objc) {
        S s = ms(SK::OTry, {block(d)});
        int n = r.below(3), l = loops, sw = inSwitch; 
        for (int i = 0; i < n; i++) { S c = ms(SK::OCatch, {block(d)}); c->t = i == 0 ? "Root *x" : "..."; s->c.push_back(c); }
        loops = inSwitch = 0; inLambda++;
        if (n == 0 || r.chance(40)) s->c.push_back(ms(SK::OFinally, {block(d)}));
        loops = l; inSwitch = sw; inLambda--;
        return s;
      } break;
      case 18: if (objc) return ms(SK::OSync, {block(d)}); break;
      case 19: if (objc) return ms(SK::OPool, {block(d)}); break;
      case 20: if (objc) { S s = ms(SK::ForIn); s->c = {loopBody(d)}; return s; } break;
    }
    return simple(d);
  }
  S caseLabel(int d, bool& hasDefault) {
    S s;
    if (!hasDefault && r.chance(15)) { hasDefault = true; s = ms(SK::Default); }
    else { s = ms(SK::Case); s->t = h::str(cases++); }
    bool nd = noDecl; noDecl = true;
    s->c = {r.chance(20) ? caseLabel(d - 1, hasDefault) : r.chance(30) ? block(d - 1) : stmt(d - 1, false)};
    noDecl = nd;
    return s;
  }
  S switch_(int d) {
    S s = ms(SK::Switch);
    s->a = expr(2);
    inSwitch++;
    bool hasDefault = false;
    if (r.chance(15)) {
      s->c = {r.chance(50) ? caseLabel(d, hasDefault) : body(d - 1)};
      inSwitch--;
      return s;
    }
    S b = ms(SK::Block);
    bool nd = noDecl; noDecl = true;
    int n = r.below(6);
    for (int i = 0; i < n; i++) b->c.push_back(r.chance(50) ? caseLabel(d, hasDefault) : stmt(d - 1, false));
    noDecl = nd;
    s->c = {b};
    inSwitch--;
    return s;
  }
  // ---- printing
  std::string text(const E& e) {
    switch (e->k) {
      case EK::Var: case EK::Lit: return e->t;
      case EK::Call: return e->t + "(" + text(e->c[0]) + ")";
      case EK::Bin: case EK::Logic: return wrap(e->c[0]) + " " + e->t + " " + wrap(e->c[1]);
      case EK::Un: return e->t + wrap(e->c[0]);
      case EK::Assign: return text(e->c[0]) + " = " + wrap(e->c[1]);
      case EK::Cond: return wrap(e->c[0]) + " ? " + wrap(e->c[1]) + " : " + wrap(e->c[2]);
      case EK::Paren: return "(" + text(e->c[0]) + ")";
      case EK::Cast: return "(int)" + wrap(e->c[0]);
      case EK::Lambda: return "fn([&]() " + text(e->body) + ")";
    }
    return "";
  }
  // operands that need them get parentheses; these are written, so they count as parentheses
  std::string wrap(const E& e) { return e->k == EK::Var || e->k == EK::Lit || e->k == EK::Call || e->k == EK::Paren ? text(e) : "(" + text(e) + ")"; }
  std::string gap() { static const char* g[] = {" ", "\n", "  ", " /* if (a && b) */ ", "\n// while (a) { }\n", "\n\n"}; return g[r.below(r.chance(70) ? 3 : 6)]; }
  std::string text(const S& s) {
    switch (s->k) {
      case SK::Null: return ";";
      case SK::Expr: return text(s->a) + ";";
      case SK::Decl: return "int " + s->t + (s->a ? " = " + text(s->a) : "") + ";";
      case SK::Return: return "return " + text(s->a) + ";";
      case SK::Break: return "break;";
      case SK::Continue: return "continue;";
      case SK::Goto: return "goto " + s->t + ";";
      case SK::Label: return s->t + ": ;";
      case SK::Block: { std::string o = "{" + gap(); for (auto& c : s->c) o += text(c) + gap(); return o + "}"; }
      case SK::If: {
        // an else belongs to the nearest if: a then part with an open if inside gets braces (as a block of its own in the tree)
        std::string o = "if (" + text(s->a) + ")" + gap() + text(s->c[0]);
        if (s->c[1]) o += gap() + "else" + gap() + text(s->c[1]);
        return o;
      }
      case SK::While: return "while (" + text(s->a) + ")" + gap() + text(s->c[0]);
      case SK::Do: return "do" + gap() + text(s->c[0]) + gap() + "while (" + text(s->a) + ");";
      case SK::For: return "for (" + (s->init ? text(s->init) : std::string(";")) + " " + (s->a ? text(s->a) : "") + "; " + (s->b ? text(s->b) : "") + ")" + gap() + text(s->c[0]);
      case SK::Switch: return "switch (" + text(s->a) + ")" + gap() + text(s->c[0]);
      case SK::Case: return "case " + s->t + ":" + gap() + text(s->c[0]);
      case SK::Default: return "default:" + gap() + text(s->c[0]);
      case SK::Try: { std::string o = "try "; for (auto& c : s->c) o += text(c) + gap(); return o; }
      case SK::Catch: return "catch (" + s->t + ") " + text(s->c[0]);
      case SK::OTry: { std::string o = "@try "; for (auto& c : s->c) o += text(c) + gap(); return o; }
      case SK::OCatch: return "@catch (" + s->t + ") " + text(s->c[0]);
      case SK::OFinally: return "@finally " + text(s->c[0]);
      case SK::OSync: return "@synchronized(root) " + text(s->c[0]);
      case SK::OPool: return "@autoreleasepool " + text(s->c[0]);
      case SK::ForIn: return "for (Root *it in coll)" + gap() + text(s->c[0]);
    }
    return "";
  }
  // does the text of this statement end in an if without else?
  static bool openIf(const S& s) {
    switch (s->k) {
      case SK::If: return s->c[1] ? openIf(s->c[1]) : true;
      case SK::While: case SK::For: case SK::Switch: case SK::Case: case SK::Default: case SK::ForIn: return openIf(s->c[0]);
      default: return false;
    }
  }
  static void repair(const S& s) {
    if (!s) return;
    for (auto& c : s->c) if (c) repair(c);
    if (s->k == SK::If && s->c[1] && openIf(s->c[0])) { S b = ms(SK::Block, {s->c[0]}); s->c[0] = b; }
  }
};
}
#endif
