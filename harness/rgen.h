// Random C, C++ and Objective-C translation units, as text, rich in the patterns rules look for.
#ifndef RGEN_H
#define RGEN_H
#include "h.h"
#include <cstring>
#include <functional>
namespace rgen {
typedef std::string T;
// Small random edits of a program's tokens: other operators, literals, modifiers, doubled, dropped or moved pieces.
// What no longer compiles is thrown away.
struct Twist {
  h::Rng& r; bool cpp, objc;
  std::vector<T> t;
  static bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
  static bool blank(const T& x) { return x.empty() || isspace((unsigned char)x[0]) || x.compare(0, 2, "//") == 0 || x.compare(0, 2, "/*") == 0; }
  void split(const T& s) {
    static const char* ops[] = {"<<=", ">>=", "...", "->*", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "<<", ">>", "->", "::", "[[", "]]"};
    for (size_t i = 0; i < s.size();) {
      size_t j = i + 1;
      if (isspace((unsigned char)s[i])) while (j < s.size() && isspace((unsigned char)s[j])) j++;
      else if (s.compare(i, 2, "//") == 0) j = s.find('\n', i);
      else if (s.compare(i, 2, "/*") == 0) j = s.find("*/", i) + 2;
      else if (s[i] == '#') j = s.find('\n', i);
      else if (s[i] == '"' || s[i] == '\'') { while (j < s.size() && s[j] != s[i]) j += s[j] == '\\' ? 2 : 1; j++; }
      else if (word(s[i])) while (j < s.size() && (word(s[j]) || (s[j] == '.' && isdigit((unsigned char)s[i])))) j++;
      else for (auto* o : ops) if (s.compare(i, strlen(o), o) == 0) { j = i + strlen(o); break; }
      if (j > s.size()) j = s.size();
      t.push_back(s.substr(i, j - i)); i = j;
    }
  }
  T one(std::initializer_list<const char*> l) { auto i = l.begin(); std::advance(i, r.below((int)l.size())); return *i; }
  int pick(std::function<bool(const T&)> f) {
    std::vector<int> c;
    for (int i = 0; i < (int)t.size(); i++) if (f(t[i])) c.push_back(i);
    return c.empty() ? -1 : c[r.below((int)c.size())];
  }
  static bool in(const T& x, std::initializer_list<const char*> l) { for (auto* y : l) if (x == y) return true; return false; }
  int close(int i) { const T o = t[i], c = o == "(" ? ")" : o == "{" ? "}" : "]"; int n = 0; for (; i < (int)t.size(); i++) { if (t[i] == o) n++; if (t[i] == c && --n == 0) return i; } return -1; }
  // where the statement of token i begins and ends
  bool piece(int i, int& a, int& b) {
    a = i; while (a > 0 && !in(t[a - 1], {";", "{", "}", ":"})) a--;
    b = i; int n = 0;
    for (; b < (int)t.size(); b++) { if (in(t[b], {"(", "[", "{"})) n++; if (in(t[b], {")", "]", "}"}) && --n < 0) return false; if (n == 0 && (t[b] == ";" || t[b] == "}")) return true; }
    return false;
  }
  void insert(int i, const T& x) { t.insert(t.begin() + i, x); }
  void edit() {
    int i, j, a, b;
    switch (r.below(22)) {
      case 0: i = pick([&](const T& x) { return in(x, {"+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>=", "%=", "/=", "="}); }); if (i >= 0) t[i] = one({"+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>=", "%=", "/=", "=", "=", "=="}); break;
      case 1: i = pick([&](const T& x) { return in(x, {"&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^"}); }); if (i >= 0) t[i] = one({"&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^", ",", "<<"}); break;
      case 2: { i = pick([&](const T& x) { return isdigit((unsigned char)x[0]) || x[0] == '"' || x[0] == '\'' || in(x, {"true", "false", "YES", "NO", "nil", "NULL", "nullptr"}); });
        if (i >= 0) t[i] = r.chance(70) ? one({"0", "1", "2", "3", "1u", "2l", "1.5", "2.5", "1.5f", "'a'", "'b'", "\"a\"", "\"b\"", "\"ab\"", "\"\"", "L\"a\"", "u8\"a\"", "-1", "0x2", "01", "\"a\" \"b\""}) : cpp && r.chance(50) ? one({"true", "false", "nullptr", "NULL"}) : objc ? one({"YES", "NO", "nil", "@\"a\"", "@1", "@(1)", "@YES", "__objc_yes"}) : T("(1, 2)"); break; }
      case 3: i = pick([&](const T& x) { return word(x[0]) || x == "("; }); if (i >= 0) insert(i, one({"!", "-", "~", "+", "&", "*", "- -", "!!", "(int)", "(long)", "__extension__ ", "++", "sizeof "})); break;
      case 4: i = pick([&](const T& x) { return x == "("; }); if (i >= 0 && (j = close(i)) > 0) { insert(j, ")"); insert(i, "("); } break;
      case 5: i = pick([&](const T& x) { return word(x[0]); }); if (i >= 0) t[i] = one({"(", "((", "(/* c */"}) + t[i] + ")"; if (i >= 0 && t[i].compare(0, 2, "((") == 0) t[i] += ")"; break;
      case 6: i = pick([&](const T& x) { return x == "("; }); if (i > 0 && (j = close(i)) > 0) { t.erase(t.begin() + j); t.erase(t.begin() + i); } break;
      case 7: i = pick([&](const T& x) { return in(x, {"int", "unsigned", "double", "bool", "BOOL", "id", "struct", "auto", "void", "NSObject", "char"}); }); if (i >= 0) insert(i, one({"const ", "static ", "volatile ", "inline ", "extern ", "virtual ", "constexpr ", "register ", "static const ", "__attribute__((unused)) ", "__attribute__((annotate(\"x\"))) ", "mutable ", "explicit ", "friend ", "typedef ", "_Thread_local "})); break;
      case 8: i = pick([&](const T& x) { return in(x, {"int", "unsigned", "double", "bool", "BOOL", "id", "auto"}); }); if (i >= 0) t[i] = one({"int", "unsigned", "double", "long", "char", "float", "short", "long long", "unsigned char", "const int", "id", "int *", "auto"}); break;
      case 9: i = pick([&](const T& x) { return x == ")"; }); if (i > 0 && t[i - 1] != "(") insert(i, one({", ...", ", int", ", int extra", ", int unnamed[]", " ..."})); break;
      case 10: i = pick([&](const T& x) { return in(x, {"if", "while", "for", "switch", "return", "do", "break", "continue", "throw", "delete", "goto", "try"}) || x == "{"; });
        if (i >= 0) insert(i, r.chance(30) ? one({"; ", "act(); ", "{ ", "{ } "}) : cpp ? one({"[[likely]] ", "[[unlikely]] ", "[[maybe_unused]] ", "[[fallthrough]]; ", "__extension__ ", "if (1) ", "else "}) : one({"lab: ", "__extension__ ", "if (1) ", "else ", "__attribute__((fallthrough)); "})); break;
      case 11: i = pick([&](const T& x) { return x == "if"; }); if (i >= 0) { if (cpp) t[i] = one({"if constexpr", "if consteval {} else if", "if"}); if (t[i] == "if" && cpp && i + 2 < (int)t.size()) { for (j = i; j < (int)t.size() && t[j] != "("; j++) {} if (j < (int)t.size()) t[j] = one({"(int made = 1; ", "(; ", "(using I = int; ", "(int fresh = "}); } } break;
      case 12: i = pick([&](const T& x) { return x == ";"; }); if (i > 0 && piece(i, a, b)) t.erase(t.begin() + a, t.begin() + b + 1); break;                               // drop
      case 13: i = pick([&](const T& x) { return x == ";" || x == "{"; }); if (i > 0 && piece(i - 1, a, b)) { std::vector<T> c(t.begin() + a, t.begin() + b + 1); t.insert(t.begin() + b + 1, c.begin(), c.end()); } break;   // double
      case 14: case 15: { i = pick([&](const T& x) { return x == ";"; }); j = pick([&](const T& x) { return in(x, {";", "{", "}"}); }); if (i > 0 && j >= 0 && piece(i, a, b)) { std::vector<T> c(t.begin() + a, t.begin() + b + 1); t.insert(t.begin() + j + 1, c.begin(), c.end()); } break; }   // copy elsewhere
      case 16: i = pick([&](const T& x) { return x == ";"; }); if (i > 0 && piece(i, a, b)) { insert(b + 1, one({" }", " } ;", " } while (0);"})); insert(a, t[b + 1] == " } while (0);" ? "do { " : "{ "); if (t[b + 2] == " } while (0);") t[a] = "do { "; } break;
      case 17: i = pick([&](const T& x) { return x == "delete" || x == "new" || x == "->" || x == "." || x == "["; }); if (i >= 0) t[i] = t[i] == "delete" ? one({"delete[]", "::delete"}) : t[i] == "->" ? one({"->next->", "."}) : t[i]; break;
      case 18: i = pick([&](const T& x) { return x == "-" || x == "+"; }); if (i >= 0) t[i] = t[i] == "-" ? "+" : "-"; break;
      case 19: { i = pick([&](const T& x) { return word(x[0]) && !isdigit((unsigned char)x[0]); }); j = pick([&](const T& x) { return word(x[0]) && !isdigit((unsigned char)x[0]); }); if (i >= 0 && j >= 0) t[i] = t[j]; break; }
      case 20: i = pick([&](const T& x) { return x == "{"; }); if (i >= 0 && (j = close(i)) > 0) { if (r.chance(50)) t.erase(t.begin() + i + 1, t.begin() + j); else { insert(j, "}"); insert(i, "{"); } } break;
      default: { i = pick([&](const T& x) { return x == "("; }); if (i > 0 && (j = close(i)) > 0) { int k = pick([&](const T& x) { return x == "("; }); int m = k >= 0 ? close(k) : -1; if (m > 0 && (k > j || m < i)) { std::vector<T> c(t.begin() + k, t.begin() + m + 1); t.erase(t.begin() + i, t.begin() + j + 1); t.insert(t.begin() + i - (m < i ? 0 : 0), c.begin(), c.end()); } } }
    }
  }
  T operator()(const T& s) {
    split(s);
    for (int n = r.range(1, 3); n > 0; n--) edit();
    T o; for (auto& x : t) o += x;
    return o;
  }
};
struct Var { T name, type; bool param; };
struct Prog {
  h::Rng& r;
  T focus;
  bool cpp = false, objc = false, arc = false, tmpl = false;
  std::vector<std::vector<Var>> scopes;
  int uid = 0, loops = 0, switches = 0, labels = 0, fnLabels = 0, size = 0, limit = 40, noDecl = 0, inFinally = 0, lambda = 0, inCatch = 0;
  bool voidFn = false, inMethod = false;
  std::vector<T> fields;
  Prog(h::Rng& r, const T& focus) : r(r), focus(focus) {}
  T one(std::initializer_list<const char*> l) { auto i = l.begin(); std::advance(i, r.below((int)l.size())); return *i; }
  bool is(const char* f) { return focus == f; }
  // ---------------------------------------------------------------- names and variables
  T name() {
    if (r.chance(is("S01") ? 40 : 10)) return one({"x", "i", "id2", "k", "ab", "a", "yy"});
    if (r.chance(is("S01") ? 40 : 5)) { T s = "v"; int n = r.range(15, 25); while ((int)s.size() < n) s += (char)('a' + r.below(26)); return s; }
    return one({"left", "right", "count", "item", "node", "total", "value", "size"});
  }
  bool here(const T& n) { for (auto& v : scopes.back()) if (v.name == n) return true; return false; }
  T declare(const T& type, bool param = false) {
    T n = name();
    for (int k = 0; k < 9 && here(n); k++) n = name();
    if (here(n)) n = "u" + h::str(uid++);
    scopes.back().push_back({n, type, param});
    return n;
  }
  T pickVar(const T& type, bool params = false) {
    std::vector<T> c;
    std::set<T> seen;
    for (int i = (int)scopes.size() - 1; i >= 0; i--)
      for (int j = (int)scopes[i].size() - 1; j >= 0; j--) {
        auto& v = scopes[i][j];
        if (seen.insert(v.name).second && v.type == type && (!params || v.param)) c.push_back(v.name);
      }
    if (c.empty()) return "";
    return c[r.below((int)c.size())];
  }
  T ty() {
    T base = one({"int", "int", "int", "struct Node *", "struct Node *", "enum Color", "double", "unsigned"});
    if (objc && r.chance(30)) base = one({"NSObject *", "id", "NSString *", "BOOL"});
    if (cpp && r.chance(15)) base = "bool";
    return base;
  }
  T nul() { return cpp ? one({"0", "NULL", "nullptr"}) : one({"0", "NULL", "((void *)0)"}); }
  // ---------------------------------------------------------------- expressions
  T lit() { return one({"0", "1", "2", "3", "7", "42", "-1"}); }
  T cmp() { return one({"==", "!=", "<", ">", "<=", ">="}); }
  T inte(int d) {
    size++;
    T v = pickVar("int");
    if (d <= 0) return v != "" && r.chance(70) ? v : lit();
    switch (r.below(13)) {
      case 0: case 1: if (v != "") return v;
      case 2: return lit();
      case 3: case 4: return inte(d - 1) + " " + one({"+", "-", "*", "&", "|", "^", "%"}) + " " + atom(d - 1);
      case 5: return "calc(" + inte(d - 1) + ")";
      case 6: return one({"-", "~", "!", "+", "!!", "- -", "~~", "!-", "-(", "!("}) == "-(" ? "-(" + inte(d - 1) + ")" : one({"-", "~", "!"}) + atom(d - 1);
      case 7: { T p = pickVar("struct Node *"); if (p != "") return p + "->value"; return lit(); }
      case 8: return "(" + inte(d - 1) + ")";
      case 9: return cond(d - 1) + " ? " + inte(d - 1) + " : " + inte(d - 1);
      case 10: if (v != "" && r.chance(50)) return one({"++", "--"}) + v; return v == "" ? lit() : v + one({"++", "--"});
      case 11: if (objc && r.chance(50)) { T o = pickVar("NSObject *"); if (o != "") return "[" + o + " number]"; } return "(int)" + atom(d - 1);
      default: if (v != "" && r.chance(40)) return "(" + v + " = " + inte(d - 1) + ")"; return "(" + inte(d - 1) + " " + cmp() + " " + atom(d - 1) + ")";
    }
  }
  T atom(int d) {
    T v = pickVar("int");
    if (v != "" && r.chance(50)) return v;
    if (r.chance(40)) return one({"0", "1", "2", "3"});
    return "(" + inte(d) + ")";
  }
  T ptr(int d) {
    T p = pickVar("struct Node *");
    if (p == "" || r.chance(10)) return r.chance(50) ? "global" : "make()";
    if (d > 0 && r.chance(30)) return p + "->next";
    return p;
  }
  T cond(int d) {
    size++;
    if (d <= 0) return inte(0);
    switch (r.below(is("S05") ? 22 : is("S03") ? 20 : 12)) {
      case 0: case 1: return atom(d - 1) + " " + cmp() + " " + atom(d - 1);
      case 2: return ccond(d - 1) + " && " + ccond(d - 1);
      case 3: return ccond(d - 1) + " || " + ccond(d - 1);
      case 4: return "!" + paren(cond(d - 1));
      case 5: return ptr(1) + " " + one({"==", "!="}) + " " + nul();
      case 6: return one({"", "!"}) + ptr(1);
      case 7: return inte(d - 1);
      case 8: return paren(cond(d - 1));
      case 9: return constant(d);
      case 10: return atom(d - 1) + " " + one({"&", "|", "^"}) + " " + atom(d - 1);
      case 11: return nullUse(d);
      default:
        if (is("S05")) return s05cond(d);
        return nullUse(d);
    }
  }
  T paren(const T& s) { return "(" + s + ")"; }
  T ccond(int d) { return r.chance(60) ? paren(cond(d)) : r.chance(50) ? inte(0) : one({"", "!"}) + ptr(1); }
  T constant(int d) {
    if (tmpl && r.chance(50)) return one({"sizeof...(T)", "noexcept(act(T()...))", "sizeof...(T) > 1", "sizeof(U) == 4", "U::value", "!U::value", "sizeof(U)", "U() == 1", "(U) 1", "alignof(U) > 1", "1 || U::value", "noexcept(U())"});
    switch (r.below(8)) {
      case 0: return "1";
      case 1: return "0";
      case 2: return "1 == 1";
      case 3: return lit() + " " + cmp() + " " + lit();
      case 4: return cpp ? one({"true", "false"}) : T("2 > 1");
      case 5: return "!0";
      case 6: return one({"Red", "Blue", "sizeof(int)", "1.5", "(1, 0)", "limit"}); 
      default: return "1 " + one({"&&", "||"}) + " " + inte(0);
    }
  }
  T qual(const T& p) { return r.chance(10) ? one({"others::", "::"}) + one({"left", "right", "node"}) : p; }
  T testOf(const T& p0) {
    T p = is("S03") && cpp ? qual(p0) : p0; return r.chance(50) ? one({"", "!"}) + p : r.chance(70) ? p + one({" != ", " == "}) + nul() : nul() + one({" != ", " == "}) + p; }
  T useOf(const T& p0) {
    T p = is("S03") && cpp ? qual(p0) : p0;
    switch (r.below(6)) {
      case 5: return one({"-", "~", "!", "*&", "+", "!!", "(long)", "-(", "(int)-"}) == "-(" ? "-(" + p + "->value)" : one({"-", "~", "!", "*&", "+", "!!", "(long)", "(int)-"}) + p + "->value";
      case 0: return p + "->value " + cmp() + " " + lit();
      case 1: return p + "->next";
      case 2: return cpp ? p + "->get()" : p + "->value";
      case 3: return "!" + p + "->next";
      default: return "(*" + p + ").value";
    }
  }
  T nullUse(int d) {
    T p = pickVar("struct Node *"), q = pickVar("struct Node *");
    if (objc && r.chance(45)) {
      T o = pickVar("NSObject *"), b = pickVar("NSObject *");
      if (o != "") {
        T x = r.chance(75) ? o : b;
        T test = r.chance(50) ? one({"", "!"}) + o : r.chance(70) ? o + one({" != ", " == "}) + one({"nil", "NULL", "0"}) : one({"nil"}) + one({" != ", " == "}) + o;
        T use = r.chance(70) ? one({"", "!", "", "!", "-", "~", "!!", "+", "(int)", "1 + "}) + "[" + x + " number]" : r.chance(50) ? "[" + x + " isEqual:" + o + "]" : "[" + x + " number] " + cmp() + " " + lit();
        T op = one({" && ", " || "});
        if (r.chance(20)) test = paren(test);
        if (r.chance(20)) use = paren(use);
        return r.chance(60) ? test + op + use : use + op + test;
      }
    }
    if (p == "") return "global && global->value";
    T x = r.chance(75) ? p : q, test = testOf(p), use = useOf(x), op = one({" && ", " || "});
    if (r.chance(20)) test = paren(test);
    if (r.chance(20)) use = paren(use);
    if (r.chance(12)) use = paren(useOf(x) + one({" && ", " || "}) + inte(0));
    return r.chance(60) ? test + op + use : use + op + test;
  }
  T s05cond(int d) {
    switch (r.below(9)) {
      case 0: return inte(0) + " % 2 == " + one({"1", "0", "2", "-1"});
      case 1: return atom(0) + " % " + one({"2", "3", "1"}) + " == 1";
      case 2: if (r.chance(30)) return one({"1 == (", "1 != (", "0 == ("}) + atom(0) + " % 2)" ; if (r.chance(25)) return "(" + atom(0) + " % 2) " + one({"== 1", "!= 1"}); return one({"1", "1", "1u", "1l", "0x1", "(1)", "2 - 1"}) + " == " + atom(0) + " % " + one({"2", "2", "2u", "(2)"});
      case 3: return "!!" + atom(d - 1);
      case 4: return "!(!" + atom(d - 1) + ")";
      case 5: return "~~" + atom(d - 1);
      case 6: return "!(" + atom(d - 1) + " " + cmp() + " " + atom(d - 1) + ")";
      case 7: return one({"!-", "-~", "!~", "~-", "-+", "!+", "+-", "!(-", "-(~"}) == "!(-" ? "!(-" + atom(0) + ")" : one({"!-", "-~", "!~", "~-", "-+"}) + atom(0);
      default: return "(" + atom(d - 1) + one({" & ", " | "}) + atom(d - 1) + ")" + one({"", " == 0", " && 1"});
    }
  }
  T cexpr() {   // conditional operator
    switch (r.below(7)) {
      case 0: return (r.chance(10) ? "(" + cond(1) + ")" : cond(1)) + " ? " + one({"1", "0"}) + " : " + one({"0", "1"});
      case 1: if (cpp) return cond(1) + " ? " + one({"true", "false", "(true)"}) + " : " + one({"false", "true", "(false)"});
      case 2: if (objc) return cond(1) + " ? " + one({"YES", "NO"}) + " : " + one({"NO", "YES"});
      case 3: { T v = atom(0); return cond(1) + " ? " + v + " : " + (r.chance(60) ? v : atom(0)); }
      case 4: return cond(1) + " ? " + one({"\"a\"", "\"a\"", "\"ab\"", "\"\"", "\"a\" \"b\""}) + " : " + one({"\"a\"", "\"b\"", "\"ab\"", "\"\"", "\"a\\0b\"", "(\"a\")"}) + one({"", "", " \"c\""});
      case 5: return cond(1) + " ? " + one({"1.5", "1.5", "1.5f", "-1.5", "'a'", "'a'", "1", "(1)", "1u"}) + " : " + one({"1.5", "2.5", "1.5f", "-1.5", "'a'", "'b'", "1", "(1)", "1ul"});
      default: return constant(1) + " ? " + inte(0) + " : " + inte(0);
    }
  }
  // ---------------------------------------------------------------- statements
  T nl() { return one({"\n", "\n", "\n", " ", "\n\n", "\n// note\n", " /* if (a) { } */ "}); }
  T ret() {
    if (lambda) return "return " + inte(1) + ";";
    if (voidFn) return "return;";
    return "return " + (r.chance(60) ? inte(2) : cond(2)) + ";";
  }
  T body(int d) {
    if (r.chance(is("S02") ? 25 : 6)) return one({";", "{ }", "{}", "{ ; }", "{ /* nothing */ }", "{\n// nothing\n}", "{ { } }"});
    if (r.chance(65)) return block(d);
    noDecl++;
    T s = stmt(d - 1);
    noDecl--;
    return s;
  }
  T block(int d, int atLeast = 0) {
    scopes.push_back({});
    int nd = noDecl; noDecl = 0;
    T s = "{" + nl();
    int n = std::max(atLeast, r.below(4) + (r.chance(8) ? 4 : 0));
    if (r.chance(is("S02") ? 25 : 5)) n = atLeast;
    for (int i = 0; i < n; i++) s += stmt(d - 1) + nl();
    noDecl = nd;
    scopes.pop_back();
    return s + "}";
  }
  T loopBody(int d) { loops++; int s = switches; switches = 0; T b = body(d); switches = s; loops--; return b; }
  T thrown() { if (cpp && (!objc || r.chance(50))) return r.chance(20) ? "throw;" : "throw " + inte(0) + ";"; if (objc) return inCatch && r.chance(60) ? "@throw;" : "@throw failure;"; return "act();"; }
  T jump() {
    switch (r.below(7)) {
      case 0: case 1: if (loops) return one({"break;", "continue;"}); break;
      case 2: if (switches) return "break;"; break;
      case 3: if (!cpp && !lambda && !inFinally && fnLabels && r.chance(60)) return "goto L" + h::str(labels + r.below(fnLabels)) + ";"; break;
      case 4: return thrown();
    }
    return inFinally && !objc ? "act();" : ret();
  }
  T assign() {
    T v = pickVar("int", r.chance(40));
    if (v == "") v = pickVar("int");
    if (v == "") return "act();";
    switch (r.below(5)) {
      case 0: return v + " " + one({"+=", "-=", "|="}) + " " + inte(1) + ";";
      case 1: return v + "++;";
      case 2: return v + " = " + paren(cond(2)) + ";";
      case 3: return v + " = " + (r.chance(50) ? inte(1) : cexpr()) + ";";
      default: return v + " = " + inte(2) + ";";
    }
  }
  T decl() {
    T t = ty();
    T init = t == "int" ? (r.chance(60) ? " = " + inte(2) : r.chance(30) ? " = (" + inte(1) + ")" : "") : t == "struct Node *" ? " = " + ptr(1) : t == "bool" || t == "BOOL" ? " = " + paren(cond(1)) : "";
    T n = declare(t);
    T s = (r.chance(5) ? "static " : "") + T("");
    if (s != "") init = "";
    s += t + (t[t.size() - 1] == '*' ? "" : " ") + n + init;
    if (t == "int" && r.chance(15)) s += ", " + declare("int") + (r.chance(50) ? " = 3" : "");
    return s + ";";
  }
  T ifs(int d) {
    T s = T(tmpl && r.chance(20) ? "if constexpr (" : "if (") + cond(3) + ")" + nl();
    if (s[3] == 'c') s = "if constexpr (" + constant(1) + ")" + nl();
    bool els = r.chance(45);
    T b = els ? block(d) : body(d);
    if (is("S06") && r.chance(35)) { T j = jump(); b = r.chance(50) ? "{ " + j + " }" : j; }
    if (is("S06") && r.chance(15)) { T inner = "if (" + cond(1) + ") " + block(d - 1) + (r.chance(30) ? " else " + block(d - 1) : ""); b = r.chance(60) ? "{ " + inner + one({" ", " ;", " act(); "}) + "}" : els ? "{ " + inner + " }" : inner; }
    if (is("S05") && r.chance(40)) return redundantIf(d);
    if (cpp && s.substr(0, 4) == "if (" && r.chance(8)) { T k = one({"if constexpr (", "if (int made = 1; ", "if (; "}); s = k[3] == 'c' ? k + constant(0) + ")" + nl() : k + s.substr(4); }
    s += b;
    if (els) s += nl() + "else" + nl() + (r.chance(30) ? ifs(d - 1) : is("S02") && r.chance(30) ? one({";", "{ }", "{ ; }"}) : body(d));
    return s;
  }
  T redundantIf(int d) {
    T vt = cpp && r.chance(70) ? "bool" : objc && r.chance(70) ? "BOOL" : "int", v = pickVar(vt), w = r.chance(70) ? v : pickVar(vt);
    T t = cpp ? one({"true", "false", "1", "0"}) : objc ? one({"YES", "NO", "1", "0"}) : one({"1", "0"}), f = r.chance(60) ? (t == "true" ? "false" : t == "false" ? "true" : t == "1" ? "0" : t == "0" ? "1" : t == "YES" ? "NO" : "YES") : one({"0", "1"});
    T a, b;
    if (r.chance(25)) { T c = one({"(int)", "(int)", "(signed char)", "(long)"}); t = c + (r.chance(50) ? "1" : "0"); f = c + (t.back() == '1' ? "0" : "1"); vt = "int"; v = pickVar(vt); w = r.chance(70) ? v : pickVar(vt); }
    if (v == "" || r.chance(40)) { if (voidFn && !lambda) return "act();"; a = "return " + t + ";"; b = "return " + f + ";"; }
    else { T op = r.chance(75) ? T(" = ") : one({" += ", " |= ", " &= ", " ^= "}); a = v + op + t + ";"; b = w + (r.chance(85) ? op : T(" = ")) + f + ";"; }
    T s = "if (" + cond(2) + ") " + (r.chance(50) ? "{ " + a + " }" : a);
    if (r.chance(90)) s += " else " + (r.chance(50) ? "{ " + b + " }" : b);
    return s;
  }
  T fors(int d) {
    scopes.push_back({});
    T s = "for (", v;
    switch (r.below(5)) {
      case 0: s += ";"; break;
      case 1: { T x = pickVar("int"); s += x != "" ? x + " = 0;" : ";"; break; }
      case 2: { v = declare("int"); s += "int " + v + " = 0"; if (r.chance(50)) s += ", " + declare("int") + " = 1"; s += ";"; break; }
      default: v = declare("int"); s += "int " + v + " = 0;";
    }
    s += " " + (r.chance(75) ? cond(1) : T("")) + "; ";
    T x = r.chance(60) && v != "" ? v : pickVar("int");
    if (r.chance(70) && x != "") s += r.chance(50) ? x + "++" : r.chance(40) ? "++" + x : r.chance(50) ? x + " += 1" : x + " = " + x + " + 1";
    s += ")" + nl();
    if (is("S06") && r.chance(45) && d > 0) {
      loops++;
      T inner = fors(d - 1);
      loops--;
      s += r.chance(50) ? "{ " + inner + one({" ", " ;", " act();"}) + " }" : inner;
    } else s += loopBody(d);
    scopes.pop_back();
    return s;
  }
  int caseNo = 0;
  T label(bool& def, std::vector<T>& enumLeft, bool en) {
    if (!def && r.chance(20)) { def = true; return "default:"; }
    if (en) { if (enumLeft.empty()) { if (def) return "case (enum Color)" + h::str(50 + caseNo++) + ":"; def = true; return "default:"; } T e = enumLeft.back(); enumLeft.pop_back(); return "case " + e + ":"; }
    return "case " + h::str(caseNo++) + ":";
  }
  T sw(int d) {
    T e = pickVar("enum Color");
    bool en = e != "" && r.chance(45), def = false;
    std::vector<T> left = {"Red", "Green", "Blue"};
    if (en) for (int i = 0; i < 3; i++) std::swap(left[i], left[r.below(3)]);
    T s = "switch (" + (en ? e : inte(1)) + ")" + nl();
    switches++; noDecl++;
    int l = loops;
    if (r.chance(4)) { s += r.chance(50) ? label(def, left, en) + " " + stmt(d - 1) : r.chance(50) ? stmt(0) : T(";"); switches--; noDecl--; return s; }
    s += "{" + nl();
    int n = r.chance(15) ? 0 : r.range(1, en ? 5 : 6);
    for (int i = 0; i < n; i++) {
      int k = r.below(10);
      if (k < 6) {
        T lb = label(def, left, en);
        if (r.chance(20)) lb += " " + label(def, left, en);
        s += lb + " ";
        if (r.chance(25)) s += "{" + nl() + (r.chance(50) ? stmt(d - 1) : T("")) + nl() + (r.chance(60) ? jump() : T("")) + " }" + nl();
        else if (r.chance(20)) s += jump() + nl();
        else s += stmt(d - 1) + nl();
        if (r.chance(55)) s += jump() + nl();
      } else if (k == 6 && !cpp && !lambda && r.chance(is("S04") ? 80 : 20)) s += newLabel() + " " + stmt(0) + nl();
      else if (k < 9) s += stmt(d - 1) + nl();
      else s += jump() + nl();
    }
    switches--; noDecl--;
    return s + "}";
  }
  T newLabel() { return "L" + h::str(labels + fnLabels++) + ":"; }
  T tries(int d) {
    if (cpp && (!objc || r.chance(50))) {
      T s = "try " + block(d);
      int n = r.range(1, 3);
      static const char* t[] = {"int", "const char *", "..."};
      for (int i = 0; i < n; i++) {
        scopes.push_back({});
        T nm = i < 2 && r.chance(60) ? " " + declare(i ? "const char *" : "int") : "";
        s += nl() + "catch (" + t[i] + nm + ") " + block(d);
        scopes.pop_back();
      }
      return s;
    }
    if (!objc) return "act();";
    T s = "@try " + block(d);
    int n = r.below(3);
    inCatch++;
    if (n) { scopes.push_back({}); s += nl() + "@catch (NSException *" + declare("NSException *") + ") " + block(d); scopes.pop_back(); }
    if (n > 1) s += nl() + "@catch (...) " + block(d);
    inCatch--;
    if (n == 0 || r.chance(60)) {
      int l = loops, w = switches; loops = switches = 0; inFinally++;
      s += nl() + "@finally " + block(d, is("S06") ? 1 : 0);
      loops = l; switches = w; inFinally--;
    }
    return s;
  }
  T lambdaStmt(int d) {
    int l = loops, w = switches; loops = switches = 0; lambda++;
    scopes.push_back({});
    T p = r.chance(50) ? "int " + declare("int", true) : "";
    T s = "use([&](" + p + ") -> int " + block(d, 1) + ");";
    s.insert(s.size() - 3, " return 0; ");
    scopes.pop_back();
    loops = l; switches = w; lambda--;
    return p == "" ? "use0" + s.substr(3) : s;
  }
  T special(int d) {
    if (is("S06")) switch (r.below(8)) {
      case 0: return jump() + nl() + stmt(d - 1);
      case 1: if (objc) { return one({"[failure raise];", "[NSException raise:@\"a\" format:@\"b\"];", "[other raise];", "[failure description];"}); } break;
      case 2: { T v = pickVar("int", true); if (v != "") return v + one({" = ", " += "}) + inte(1) + ";"; break; }
      case 3: { T s = "if (" + cond(1) + ") {"; int n = r.range(8, 20); for (int i = 0; i < n; i++) s += "\nact();"; s += "\n}"; if (r.chance(20)) s += " else { act(); }"; return s + (r.chance(60) ? "\n" + jump() : T("")); }
      case 4: { T s = one({"while (", "do {"}); T b; int n = r.range(8, 20); b = "if (" + cond(1) + ") {"; for (int i = 0; i < n; i++) b += "\nact();"; b += "\n}"; loops++; if (r.chance(30)) b += jump(); loops--; return s == "do {" ? "do { " + b + " } while (" + cond(1) + ");" : "while (" + cond(1) + ") " + (r.chance(50) ? "{ " + b + " }" : b); }
      case 5: return sw(d);
    }
    if (is("S03")) { T s = "if (" + nullUse(1) + ") " + block(d); return s; }
    if (is("S05") && r.chance(25)) return redundantIf(d);
    if (is("S05")) switch (r.below(6)) {
      case 0: return assign();
      case 1: if (!voidFn || lambda) return "return (" + inte(1) + ");"; break;
      case 2: { T v = pickVar("int"); if (v != "") return v + " = (" + inte(1) + ");"; break; }
      case 3: if (cpp) { T p = pickVar("struct Node *"), q = r.chance(70) ? p : pickVar("struct Node *"); if (p != "") { T t = r.chance(60) ? p : p + one({" != ", " == "}) + nul(); T b = one({"delete ", "delete[] "}) + q + ";"; T s = "if (" + t + ") " + (r.chance(50) ? "{ " + b + (r.chance(20) ? " act(); " : "") + (r.chance(20) ? p + " = 0; " : "") + "}" : b); if (r.chance(20)) s += " else { act(); }"; return s; } } break;
      case 4: { if (voidFn && !lambda) break; scopes.push_back({}); T n = declare("int"); T s = "{ int " + n + " = " + inte(1) + (r.chance(15) ? ", zz = 2" : "") + "; " + (r.chance(20) ? assign() + " " : T("")) + "return " + (r.chance(20) ? "(" + n + ")" : r.chance(80) ? n : inte(1)) + "; }"; scopes.pop_back(); return s; }
      default: { T v = pickVar("int"); if (v != "") return v + " = " + cexpr() + ";"; }
    }
    return assign();
  }
  T stmt(int d) {
    size++;
    if (d <= 0 || size > limit * 4) return simple();
    if (r.chance(is("S06") || is("S05") || is("S03") ? 35 : 5)) { bool isDecl = false; return special(d); }
    switch (r.below(is("S04") ? 26 : 20)) {
      case 0: case 1: case 2: return ifs(d);
      case 3: return "while (" + cond(2) + ")" + nl() + loopBody(d);
      case 4: return "do" + nl() + loopBody(d) + nl() + "while (" + cond(2) + ");";
      case 5: case 6: return fors(d);
      case 7: return sw(d);
      case 8: return block(d);
      case 9: case 10: case 11: if (!noDecl) return decl(); break;
      case 12: if (!cpp && !lambda && !inFinally && !noDecl && r.chance(40)) return newLabel() + " " + simple(); break;
      case 13: case 14: if (cpp || objc) return tries(d); break;
      case 15: if (objc) return one({"@synchronized(failure) ", "@autoreleasepool "}) + block(d); break;
      case 16: if (objc) return "for (NSObject *entry in list)" + nl() + loopBody(d); break;
      case 17: if (cpp && !noDecl && r.chance(40) && lambda < 2) return lambdaStmt(d - 1); break;
      case 18: if (cpp && r.chance(50)) { scopes.push_back({}); T s = "for (int " + declare("int") + " : numbers) " + loopBody(d); scopes.pop_back(); return s; } break;
      case 20: case 21: case 22: case 23: return sw(d);
    }
    return simple();
  }
  T simple() {
    switch (r.below(8)) {
      case 0: return ";";
      case 1: case 2: return jump();
      case 3: case 4: return assign();
      case 5: return inte(1) + ";";
      case 6: { T p = pickVar("struct Node *"); if (p != "") return p + "->value = " + inte(1) + ";"; }
      default: return "act();";
    }
  }
  // ---------------------------------------------------------------- functions and files
  T params(int n, bool named = true) {
    T s;
    for (int i = 0; i < n; i++) { T t = ty(); s += (i ? ", " : "") + t + (r.chance(cpp ? 92 : 100) ? (t.back() == '*' ? "" : " ") + declare(t, true) : T("")); }
    return n ? s : T(cpp ? "" : "void");
  }
  T function(int i) {
    scopes.push_back({});
    voidFn = r.chance(35);
    labels = 1000 * i; fnLabels = 0;
    size = 0;
    tmpl = is("S05") && cpp && r.chance(30);
    T sig = T(tmpl ? "template <class U, class... T> " : "") + (voidFn ? "void" : "int") + T(" target") + h::str(i) + "(" + params(r.below(5) + (r.chance(is("S01") ? 25 : 2) ? 8 : 0)) + ")";
    if (r.chance(10) && sig[sig.size() - 2] != '(' && sig.compare(sig.size() - 6, 6, "(void)")) sig.insert(sig.size() - 1, ", ...");
    T s = (r.chance(10) ? sig + ";\n" : T("")) + sig + nl() + block(r.range(2, 5), 1) + "\n";
    bool again = is("S01") && r.chance(20);
    scopes.pop_back();
    // every label that a goto may name exists
    if (!cpp) { T tail; for (int k = 0; k < fnLabels; k++) { T l = "L" + h::str(labels + k) + ":"; if (s.find(l) == T::npos) tail += l + " ;\n"; } if (tail != "") s.insert(s.rfind('}'), tail); }
    return again ? s + sig + ";\n" : s;
  }
  // classes with fields and methods
  T sep() { return one({" ", "\n", "\n", "\n\n"}); }
  T kname(int i) { return (cpp ? T("C") : T("K")) + h::str(i); }
  T methodBody() { scopes.push_back({}); voidFn = false; labels = 1000 * (50 + uid++); fnLabels = 0; size = 0; T s = block(r.range(1, 3), 0); scopes.pop_back(); if (!cpp) for (int k = 0; k < fnLabels; k++) { T l = "L" + h::str(labels + k) + ":"; if (s.find(l) == T::npos) s.insert(s.rfind('}'), l + " ;\n"); } return s; }
  T member(int i, int k, T* outside) {
    T n = "m" + h::str(k), c = kname(i);
    scopes.push_back({});
    T sig, s;
    switch (r.below(12)) {
      case 0: s = one({"virtual ", "static ", "inline ", ""}) + "int " + n + "(" + params(r.below(4)) + ");"; break;
      case 1: s = "int " + n + "(" + params(r.below(4)) + ")" + nl() + methodBody(); break;
      case 2: case 3: { T ps = params(r.below(5)); s = "int " + n + "(" + ps + ");"; if (outside) *outside += "int " + c + "::" + n + "(" + ps + ")" + nl() + methodBody() + "\n"; break; }
      case 4: s = "int f" + h::str(k) + (r.chance(30) ? ", g" + h::str(k) + "[2]" : T("")) + ";"; break;
      case 5: s = "int f" + h::str(k) + one({" : 3;", ";\nint : 2;", " = 4;"}); break;
      case 6: s = "static int f" + h::str(k) + ";"; break;
      case 7: s = "template <class T> int " + n + "(T t) " + methodBody(); break;
      case 8: s = "operator " + one({"int", "bool", "char *", "long", "double"}) + "() const = delete;"; s = "int " + n + "() const = delete;"; break;
      case 9: s = "struct In" + h::str(k) + sep() + "{ int a;" + sep() + "int b() { return a; } };"; break;
      case 10: s = "struct In" + h::str(k) + ";"; break;
      default: s = "using t" + h::str(k) + " = int;";
    }
    scopes.pop_back();
    return s + sep();
  }
  T klass(int i) {
    T n = kname(i), s, out;
    if (cpp && (!objc || r.chance(50))) {
      bool t = r.chance(20);
      T head = t ? "template <class U> " : "", key = one({"struct ", "class ", "struct "});
      if (r.chance(30)) s += head + key + n + ";\n";
      s += head + key + n + (r.chance(20) ? " : Node" : "") + sep() + "{" + sep() + "public:" + sep();
      int k = r.below(9);
      for (int j = 0; j < k; j++) s += member(i, j, t ? nullptr : &out);
      if (r.chance(30)) s += n + "() = default;" + sep();
      if (r.chance(20)) s += n + "(const " + n + " &) { }" + sep();
      if (r.chance(20)) s += "~" + n + "();" + sep();
      if (r.chance(20)) s += n + " &operator=(" + n + " &&);" + sep();
      s += "};\n";
      if (r.chance(30)) s += head + key + n + ";\n";
      s += out;
      if (r.chance(40)) s += t ? n + "<int> made" + h::str(i) + "();\ntemplate struct " + n + "<char>;\n" : "int made" + h::str(i) + "(" + n + " *k) { return sizeof(*k); }\n";
      if (s.find("template struct") != T::npos && key == "class ") s.replace(s.find("template struct"), 15, "template class");
      return s;
    }
    if (!objc) {
      if (r.chance(30)) s += "struct " + n + ";\n";
      s += "struct " + n + sep() + "{" + sep();
      for (int j = r.below(5); j >= 0; j--) s += "int f" + h::str(j) + one({";", " : 3;", "[2];"}) + sep();
      return s + "};\n";
    }
    n = "O" + h::str(i);
    auto ivars = [&](const char* p) { T v; if (r.chance(60)) { v = " {" + sep(); for (int j = r.below(5); j > 0; j--) v += "int " + T(p) + h::str(j) + ";" + sep(); v += "}" + sep(); } return v + "\n"; };
    std::vector<T> ms;
    auto sig = [&](int j) { T m = one({"- ", "- ", "+ "}) + "(int)m" + h::str(j); int k = r.below(4); for (int a = 0; a < k; a++) m += (a ? " w" + h::str(a) : T("")) + ":(int)" + declare("int", true); return m; };
    scopes.push_back({});
    int k = r.below(5);
    if (r.chance(30)) s += "@class " + n + ";\n";
    if (r.chance(40)) { s += one({"@protocol P", "@protocol Q"}) + h::str(i) + "\n"; for (int j = r.below(3); j > 0; j--) s += sig(20 + j) + ";" + sep(); s += "@end\n"; }
    s += "@interface " + n + " : NSObject" + ivars("v");
    for (int j = 0; j < k; j++) { ms.push_back(sig(j)); if (r.chance(80)) s += ms.back() + ";" + sep(); }
    if (r.chance(30)) s += "@property int prop" + h::str(i) + ";\n";
    s += "@end\n";
    if (r.chance(30)) s += "@class " + n + ";\n";
    if (r.chance(30)) s += "@interface " + n + " ()" + ivars("e") + "@end\n";
    if (r.chance(30)) s += "@interface " + n + " (More)\n" + sig(40) + ";" + sep() + "@end\n@implementation " + n + " (More)\n" + one({"", "- (int)n1 { return 1; }\n", "- (int)n1\n{\n\nreturn 1;\n}\n- (int)n2 { return 2; }\n"}) + "@end\n";
    scopes.pop_back();
    if (r.chance(75)) {
      s += "@implementation " + n + ivars("w");
      for (auto& m : ms) {
        scopes.push_back({});
        for (size_t b = m.find(":(int)"); b != T::npos; b = m.find(":(int)", b + 1)) { size_t e = m.find(' ', b); scopes.back().push_back({m.substr(b + 6, e == T::npos ? e : e - b - 6), "int", true}); }
        s += m + sep() + methodBody() + "\n";
        scopes.pop_back();
      }
      if (r.chance(20)) s += "int helper" + h::str(i) + "(int a, int b) { return a; }\n";
      s += "@end\n";
    }
    return s;
  }
  // Objective-C classes with annotated methods, messages that literals replace and assignments of instance variables
  T annotation(const char* prefer) {
    T name = r.chance(85) ? T(prefer) : one({"base method", "protected method", "prohibited method", "abstract method", "prohibited methods", "method", ""});
    T text = r.chance(95) ? "oclint:enforce[" + name + "]" : one({"oclint:enforce", "oclint:enforce[", "enforce[base method]"});
    if (r.chance(35)) text += one({"[use it]", "[]", " [x] ", "[a][b]", "[open", "note", " [why]"});
    return " __attribute__((annotate(\"" + text + "\")))";
  }
  T annotated(int percent = 35) { T s; while (r.chance(percent)) { s += annotation(one({"base method", "protected method", "protected method", "prohibited method", "abstract method"}).c_str()); percent /= 3; } return s; }
  struct Sel { T text, name; bool cls; };
  Sel selector(const T& n) {
    T N = n; N[0] = toupper(N[0]);
    switch (r.below(14)) {
      case 0: return {"- (id)go", "go", false};
      case 1: return {"- (id)take:(int)a", "take:", false};
      case 2: return {"- (id)put:(int)a at:(int)b", "put:at:", false};
      case 3: return {"+ (id)make", "make", true};
      case 4: return {"+ (id)go", "go", true};
      case 5: return {"- (BOOL)isEqual:(id)o", "isEqual:", false};
      case 6: return {"- (unsigned)hash", "hash", false};
      case 7: return {"- (id)init", "init", false};
      case 8: { T i = one({"initWith:", "initialize:", "ini:", "Init:", "init:"}); return {"- (id)" + i + "(int)a", i, false}; }
      case 9: return {"- (int)" + n, n, false};
      case 10: return {"- (void)set" + N + ":(int)a", "set" + N + ":", false};
      case 11: { T i = one({"set", "Set", "reset"}) + n; return {"- (void)" + i + ":(int)a", i + ":", false}; }
      case 12: { T i = "set" + N; return {"- (void)" + i, i, false}; }
      default: return {"- (int)number", "number", false};
    }
  }
  T call(const T& to, const T& name) {
    T s = "[" + to + " "; size_t b = 0, e;
    if (name.find(':') == T::npos) return s + name + "]";
    while ((e = name.find(':', b)) != T::npos) { s += (b ? " " : "") + name.substr(b, e + 1 - b) + (name == "isEqual:" ? T("o") : one({"1", "2", "n"})); b = e + 1; }
    return s + "]";
  }
  T number() {
    static const char* kinds[][2] = {{"Int", "int"}, {"Char", "char"}, {"UnsignedInt", "unsigned"}, {"Long", "long"}, {"UnsignedLong", "unsigned long"}, {"LongLong", "long long"}, {"UnsignedLongLong", "unsigned long long"}, {"Float", "float"}, {"Double", "double"}, {"Bool", "BOOL"}};
    auto& k = kinds[r.below(10)]; auto& o = kinds[r.chance(85) ? &k - kinds : r.below(10)];
    T t = o[1], lit = t == "int" ? "42" : t == "char" ? "'c'" : t == "unsigned" ? "42u" : t == "long" ? "42l" : t == "unsigned long" ? "42ul" : t == "long long" ? "42ll" : t == "unsigned long long" ? "42ull" : t == "float" ? "1.5f" : t == "double" ? "1.5" : one({"YES", "NO", "1", "(BOOL)1", "((BOOL)0)", "__objc_yes", "((int)1)"});
    T arg;
    switch (r.below(6)) {
      case 0: case 1: arg = lit; break;
      case 2: arg = one({"(", "((", "("}) == "((" ? "((" + lit + "))" : "(" + lit + ")"; break;
      case 3: arg = "(" + lit + " " + one({"+", "-", "*", "=="}) + " " + lit + ")"; break;
      case 4: arg = one({"Red", "(Red)", "n", "(n)", "-1", "-2.5", "(n == 1)", "(1 > 2)", "!n", "'x'", "~1u", "Green + 1"}); break;
      default: arg = "(" + t + ")" + lit; if (r.chance(50)) arg = "(" + arg + ")";
    }
    return "[" + one({"NSNumber", "NSNumber", "NSNumber", "NSNumber", "NSNumber", "NSOther"}) + " numberWith" + k[0] + ":" + arg + "]";
  }
  T replaced() {
    switch (r.below(5)) {
      case 0: case 1: return number();
      case 2: return "[" + one({"NSString", "NSString", "NSString", "NSOther"}) + " stringWithUTF8String:" + one({"text()", "words", "(words)", "\"a\"", "(words + 1)", "fixed", "(fixed)", "constant()", "buffer", "(buffer)", "((char *)fixed)"}) + "]";
      case 3: {
        T a = one({"array", "arrayWithObject:o", "arrayWithObjects:o, o, nil", "arrayWithObjects:items count:2", "arrayWithArray:o", "dictionary", "dictionaryWithObject:o forKey:o", "dictionaryWithObjects:o forKeys:o", "dictionaryWithObjects:items forKeys:items count:1", "dictionaryWithObjectsAndKeys:o, o, nil", "dictionaryWithDictionary:o"});
        T c = a.compare(0, 5, "array") ? one({"NSDictionary", "NSDictionary", "NSMutableDictionary"}) : one({"NSArray", "NSArray", "NSMutableArray"});
        if (r.chance(8)) c = one({"NSArray", "NSDictionary", "NSOther"});
        return "[" + c + " " + a + "]";
      }
      default: {
        T a = one({"objectAtIndex:1", "objectAtIndexedSubscript:1", "replaceObjectAtIndex:1 withObject:o", "setObject:o atIndexedSubscript:1", "objectForKey:o", "objectForKeyedSubscript:o", "setObject:o forKey:o", "setObject:o forKeyedSubscript:o", "count"});
        T c = a.compare(0, 8, "objectAt") == 0 ? one({"arr", "arr", "marr"}) : a.find("ndex") != T::npos ? one({"marr", "marr", "arr"}) : a.compare(0, 9, "objectFor") == 0 ? one({"dict", "dict", "mdict"}) : one({"mdict", "mdict", "dict"});
        if (r.chance(20)) c = one({"(arr)", "[NSArray array]", "(NSArray *)o", "o", "narr", "other", "(dict)", "narr", "marr"});
        return "[" + c + " " + a + "]";
      }
    }
  }
  T cocoa(int i) {
    struct K { T name; std::vector<Sel> sels; std::vector<T> ivars; int base; };
    std::vector<K> made;
    T s, f = h::str(i);
    s += "int banned" + f + "(int)" + annotated(60) + ";\nint fine" + f + "(int);\n";
    if (r.chance(30)) s += "int banned" + f + "(int)" + annotated(30) + ";\n";
    int np = r.below(3);
    std::vector<Sel> proto;
    for (int k = 0; k < np; k++) {
      s += "@protocol P" + f + "_" + h::str(k) + (k && r.chance(50) ? " <P" + f + "_0>" : T("")) + "\n";
      for (int m = r.range(1, 3); m > 0; m--) { Sel x = selector("name"); proto.push_back(x); s += (r.chance(20) ? "@optional\n" : "") + x.text + annotated(45) + ";\n"; }
      s += "@end\n";
    }
    int kc = r.range(1, 4);
    for (int j = 0; j < kc; j++) {
      K k; k.name = "K" + f + "_" + h::str(j); k.base = j && r.chance(75) ? r.below(j) : -1;
      T base = k.base < 0 ? T("NSObject") : made[k.base].name, tag = h::str(j);
      if (k.base >= 0) { k.ivars = made[k.base].ivars; k.sels = made[k.base].sels; }
      if (r.chance(20)) s += "@class " + k.name + ";\n";
      s += "@interface " + k.name + " : " + base + (np && r.chance(40) ? " <P" + f + "_" + h::str(r.below(np)) + ">" : T(""));
      T mine;
      if (r.chance(75)) {
        s += " {\n@public\n";
        for (int v = r.range(1, 3); v > 0; v--) { T n = one({"_name", "name", "na_me", "__x", "_", "count_", "_Total", "x"}) + tag + T(1, 'a' + v); k.ivars.push_back(n); s += "int " + n + ";\n"; mine = n; }
        s += "}";
      }
      s += "\n";
      T bare; for (char c : mine) if (c != '_') bare += c;
      if (bare == "" || isdigit(bare[0])) bare = "name";
      std::vector<Sel> own;
      for (int m = r.range(1, 5); m > 0; m--) {
        Sel x = r.chance(35) && !k.sels.empty() ? k.sels[r.below((int)k.sels.size())] : r.chance(20) && !proto.empty() ? proto[r.below((int)proto.size())] : selector(bare);
        bool dup = false; for (auto& o : own) dup = dup || (o.name == x.name && o.cls == x.cls);
        if (dup) continue;
        own.push_back(x);
        if (r.chance(85)) s += x.text + annotated() + ";\n";
      }
      if (r.chance(30)) { s += "@property int prop" + tag + annotated(40) + ";\n"; k.sels.push_back({"- (int)prop" + tag, "prop" + tag, false}); }
      s += "@end\n";
      for (auto& x : own) k.sels.push_back(x);
      if (r.chance(25)) { s += "@interface " + k.name + " (" + one({"", "Cat", "Cat"}) + ")\n"; Sel x = k.sels.empty() ? selector(bare) : k.sels[r.below((int)k.sels.size())]; if (x.text.find("prop") == T::npos) s += x.text + annotated(60) + ";\n"; if (r.chance(30)) s += "@property int extra" + tag + annotated(40) + ";\n"; s += "@end\n"; }
      made.push_back(k);
      auto target = [&] { return one({"self", "super", "o", "", ""}); };
      auto statement = [&](const Sel& in, int d) {
        std::function<T(int)> st = [&](int d) -> T {
          auto message = [&]() -> T {
            T to = target();
            if (r.chance(30)) to = "super";
            const K& o = made[r.below((int)made.size())];
            const std::vector<Sel>& ss = to != "" && r.chance(70) ? k.sels : o.sels;
            Sel x = ss.empty() ? Sel{"", "number", false} : ss[r.below((int)ss.size())];
            if (to == "super" && r.chance(65)) x = in;
            if (to == "") to = x.cls ? o.name : "((" + o.name + one({" *", " *"}) + ")o)";
            if (!proto.empty() && r.chance(8)) { to = "((id <P" + f + "_0>)o)"; x = proto[0]; }
            return call(to, x.name);
          };
          switch (r.below(d > 0 ? 14 : 10)) {
            case 0: case 1: case 2: return message() + ";\n";
            case 3: case 4: if (!k.ivars.empty() && !in.cls) {
              T v = k.ivars[r.below((int)k.ivars.size())];
              return one({"", "", "self->"}) + v + one({" = 1;\n", " += 1;\n", "++;\n", " = n = 1;\n", " |= 2;\n"});
            } return "n = 3;\n";
            case 5: if (!k.ivars.empty() && !in.cls) {
              T v = k.ivars[r.below((int)k.ivars.size())], w = k.ivars[r.below((int)k.ivars.size())];
              return one({"numbers2[", "numbers2[(int)"}) + v + "] = " + w + ";\n" + (r.chance(40) ? "n = " + v + " = " + w + ";\n" : T(""));
            } return "n += 3;\n";
            case 6: return one({"banned", "fine", "(banned", "&banned", "banned"}) == "(banned" ? "(banned" + f + ")(1);\n" : r.chance(20) ? "{ int (*fp)(int) = banned" + f + "; fp(2); }\n" : "n = banned" + f + "(fine" + f + "(n));\n";
            case 7: case 8: case 9: return "(void)" + replaced() + ";\n";
            case 10: return "if (n) {\n" + st(d - 1) + "}\n";
            case 11: return "^{\nint n = 2;\n" + st(d - 1) + "}();\n";
            case 12: return "@try { " + st(d - 1) + "} @finally { " + st(d - 1) + "}\n";
            default: return "while (" + message() + ", n) { " + st(d - 1) + "break; }\n";
          }
        };
        return st(d);
      };
      auto define = [&](const Sel& x) {
        T b; for (int q = r.below(4); q > 0; q--) b += statement(x, 2);
        T ret = x.text.find("(void)") != T::npos ? "" : "return 0;\n";
        return x.text + "\n{\nint n = 1; " + (x.name == "isEqual:" ? "" : "id o = 0; ") + "\n" + b + ret + "}\n";
      };
      if (r.chance(85)) {
        s += "@implementation " + k.name + "\n";
        std::vector<Sel> done;
        auto once = [&](const Sel& x) { for (auto& o : done) if (o.name == x.name && o.cls == x.cls) return; if (x.text.find("prop") != T::npos && r.chance(60)) return; done.push_back(x); s += define(x); };
        for (auto& x : own) if (r.chance(85)) once(x);
        for (auto& x : k.sels) if (r.chance(45)) once(x);
        for (auto& x : proto) if (r.chance(20)) once(x);
        if (r.chance(40)) { T b = bare; b[0] = toupper(b[0]); once({"- (void)set" + b + ":(int)a", "set" + b + ":", false}); once({"- (int)" + bare, bare, false}); }
        if (r.chance(30)) once({"- (BOOL)isEqual:(id)o", "isEqual:", false});
        if (r.chance(15)) once({"- (unsigned)hash", "hash", false});
        if (r.chance(15)) s += "int inside" + f + tag + "(int n, id o) { " + (r.chance(50) ? "(void)" + replaced() + "; " : "banned" + f + "(1); ") + call("((" + k.name + " *)o)", k.sels.empty() ? T("number") : k.sels[0].name) + "; return n; }\n";
        s += "@end\n";
        if (r.chance(20)) {
          Sel x = k.sels.empty() ? selector(bare) : k.sels[r.below((int)k.sels.size())];
          s += "@interface " + k.name + " (Later)\n" + (r.chance(50) && x.text.find("prop") == T::npos ? x.text + annotated(40) + ";\n" : T("")) + "@end\n@implementation " + k.name + " (Later)\n" + (x.text.find("prop") == T::npos ? define(x) : T("")) + "@end\n";
        }
      }
    }
    s += "int outside" + f + "(int n, id o) { " + call("((" + made[0].name + " *)o)", made[0].sels.empty() ? T("number") : made[0].sels[0].name) + "; n = banned" + f + "(n); (void)" + replaced() + "; return n; }\n";
    return s;
  }
  // functions some of which are annotated, and calls of them
  T banned(int i) {
    T f = h::str(i), s;
    s += "int old" + f + "(int)" + annotated(70) + ";\nint fresh" + f + "(int);\n";
    if (r.chance(40)) s += "int old" + f + "(int)" + annotated(30) + ";\n";
    if (cpp) s += "struct B" + f + " { int m(int)" + annotated(60) + "; static int s(int)" + annotated(60) + "; B" + f + "(int)" + annotated(50) + "; int operator+(int)" + annotated(60) + "; int operator()(int)" + annotated(60) + "; };\n";
    s += "int user" + f + "(int n) {\n" + one({"n = old", "old", "(old"}) .substr(0, 0);
    for (int k = r.range(1, 5); k > 0; k--)
      switch (r.below(cpp ? 9 : 5)) {
        case 0: s += "n = old" + f + "(old" + f + "(n));\n"; break;
        case 1: s += "(old" + f + ")(n);\n"; break;
        case 2: s += "fresh" + f + "(n);\n"; break;
        case 3: s += "{ int (*p)(int) = old" + f + "; p(n); }\n"; break;
        case 4: s += "(*old" + f + ")(n);\n"; break;
        case 5: s += "B" + f + " b" + h::str(k) + "(1); b" + h::str(k) + ".m(2);\n"; break;
        case 6: s += "B" + f + "::s(n);\n"; break;
        case 7: s += "n = B" + f + "(n) + 1;\n"; break;
        default: s += "B" + f + "{n}(n);\n";
      }
    return s + "return n;\n}\n";
  }
  // a family of classes: each is made from those before it
  T family(int i) {
    std::vector<T> made;
    T s, out, n = h::str(i);
    int k = r.range(1, 4);
    for (int j = 0; j < k; j++) {
      T c = "D" + n + "_" + h::str(j), key = one({"struct ", "class "}), head, acc = key == "class " ? "private" : "public";
      bool t = r.chance(15);
      if (t) head = "template <class U> ";
      if (r.chance(25)) s += head + key + c + ";\n";
      s += head + key + c + (r.chance(8) ? " final" : "");
      std::vector<T> bs;
      for (auto& m : made) if (r.chance(45)) bs.push_back(m);
      if (t && r.chance(15)) bs.push_back("U");
      for (size_t b = 0; b < bs.size(); b++) s += (b ? ", " : " : ") + one({"public ", "public ", "", "private ", "protected ", "virtual public ", "virtual "}) + bs[b];
      s += sep() + "{" + sep();
      auto access = [&](const char* a) { s += T(a) + ":" + sep(); acc = a; };
      auto somewhere = [&] { if (r.chance(40)) access(r.chance(50) ? "public" : r.chance(50) ? "private" : "protected"); };
      T body = t ? ";" : one({";", " { }", ";"});
      for (int f = r.below(4); f > 0; f--) {
        somewhere();
        T fn = one({"", "virtual ", "static ", "", "static ", "virtual "}), name = one({"run", "go", "f"}) + h::str(r.below(3)), ps;
        for (int a = r.below(4); a > 0; a--) ps += T(ps.empty() ? "" : ", ") + "int p" + h::str(a);
        size_t eq = ps.rfind("int p");
        if (eq != T::npos && r.chance(40)) ps += " = 1";
        if (r.chance(60)) name += "_" + h::str(f);
        T text = fn + "int " + name + "(" + ps + ")";
        if (r.chance(20) && !t && text.find("_") != T::npos) {
          T def = "int " + c + "::" + name + "(" + ps.substr(0, ps.find(" = ")) + ") { return 1; }\n";
          s += text + ";" + sep(); out += def;
        }
        else s += text + (fn == "virtual " && r.chance(20) ? " = 0;" : r.chance(60) || text.find("_") == T::npos ? ";" : " { return 2; }") + sep();
      }
      for (int f = r.below(3); f > 0; f--) {
        somewhere();
        T v = "v" + h::str(f);
        if (r.chance(30)) { s += "static int " + v + ";" + sep(); if (!t && r.chance(50)) out += "int " + c + "::" + v + " = 1;\n"; }
        else s += one({"int ", "static const int ", "static constexpr int ", "inline static int "}) + v + " = 2;" + sep();
      }
      if (r.chance(50)) { somewhere(); if (acc == "private" && r.chance(80)) access("public"); s += one({"~", "virtual ~", "virtual ~", "~"}) + c + "()" + one({";", " { }", " = default;"}) + sep(); }
      if (r.chance(10)) { s += "friend struct Node;" + sep(); }
      if (r.chance(10)) { access("public"); s += "struct Inner { virtual int g(int x = 2) { return x; } private: static int h(); };" + sep(); }
      s += "};\n";
      if (r.chance(15)) s += head + key + c + ";\n";
      s += out; out.clear();
      made.push_back(t ? c + "<" + one({"int", "Node", "char"}) + ">" : c);
    }
    return s;
  }
  // declarations whose parameters and variables are used or not
  T unused(int i) {
    T n = h::str(i), a = one({"a", "b", "first"}), b = one({"c", "d", "second"}), s;
    auto use = [&](const T& v) { return one({"", "act(); ", ""}) + (r.chance(45) ? r.chance(70) ? "calc(" + v + "); " : r.chance(50) ? "(void)sizeof(" + v + "); " : cpp ? "decltype(" + v + ") other" + n + " = 1; " : "(void)sizeof(" + v + "); " : T("")); };
    T attr = one({"", "", "", " __attribute__((unused))"});
    auto local = [&](const T& v) {
      T t = one({"int", "int", "const int", "static int", "int *", "struct Node", "struct Node *"});
      if (cpp) t = one({"int", "Guard", "const Guard", "held::Lock<int>", "held::Lock<Guard> ", "Guard *", "Guard &", "static Guard", "auto", "std::lock_guard<Node>", "held::Lock<held::Lock<int>>", "extern int"});
      T init = t == "auto" || t == "const int" ? " = 3" : t == "Guard &" ? " = *new Guard()" : t == "Guard *" ? " = new Guard()" : T("");
      return t + " " + v + init + "; " + (r.chance(30) ? "(void)" + v + "; " : r.chance(20) ? "(void)sizeof(" + v + "); " : T(""));
    };
    auto body = [&]() { return "{ " + use(a) + local("w" + n) + use(b) + (r.chance(30) ? local("z" + n) : T("")) + "return 1; }\n"; };
    T ps = "(int " + a + attr + ", int " + b + ")";
    switch (r.below(cpp ? 14 : objc ? 8 : 6)) {
      case 0: return "int taking" + n + "(int (*cb)(int inner), int " + a + ") { return " + one({"cb(1)", "1", "cb(" }) .substr(0, 5) + one({"; }", "; }"}) + "\n";
      case 1: return "typedef int (*fn" + n + ")(int " + a + ");\nint (*global" + n + ")" + ps + ";\n";
      case 2: return "int plain" + n + ps + " " + body() + "int plain" + n + ps + ";\n";
      case 3: return "int made" + n + "(void) { int inside" + ps + "; " + (r.chance(50) ? "inside(1, 2); " : T("")) + local("k") + "return 1; }\n";
      case 4: return "int blocks" + n + ps + " { int (^bl)(int q, int p) = ^(int q, int p) { " + local("inb") + one({"return q;", "return 1;", "return p + q;"}) + " }; " + one({"return bl(1, 2); }\n", "return 1; }\n"});
      case 5: return "int rest" + n + ps + " " + body();
      case 6: case 7: if (objc) {
        T kind = one({"- ", "+ ", "- "}), kind2 = one({"- ", "+ ", "- "}), m = "(int)m:(int)" + a + " n:(int)" + b, x = "(int)x:(int)" + a;
        s = "@protocol Proto" + n + "\n" + kind + m + ";\n@end\n@protocol Sub" + n + " <Proto" + n + ">\n@end\n@interface Base" + n + " : NSObject\n" + (r.chance(60) ? kind2 + x + ";\n" : T("")) + (r.chance(20) ? T("- (unsigned)hash;\n") : T("")) + "@end\n";
        s += "@interface Derived" + n + " : Base" + n + one({"", " <Proto", " <Sub"}) + "\n";
        if (s[s.size() - 2] != '0' + i) { }
        s.pop_back();
        if (s.size() > 6 && (s.substr(s.size() - 6) == "<Proto" || s.substr(s.size() - 4) == "<Sub")) s += n + ">";
        s += "\n" + (r.chance(40) ? "- " + m + ";\n" : T("")) + "@end\n";
        if (r.chance(40)) s += "@interface Derived" + n + " ()" + (r.chance(70) ? " <Proto" + n + ">" : T("")) + "\n@end\n";
        if (r.chance(25)) s += "@interface Derived" + n + " (Cat)\n" + kind + x + ";\n@end\n@implementation Derived" + n + " (Cat)\n" + kind + x + " " + body() .substr(0, 0) + "{ return 1; }\n@end\n";
        s += "@implementation Derived" + n + "\n" + one({"- ", "+ "}) + m + " { " + use(a) + local("w") + use(b) + "return 1; }\n";
        if (r.chance(60)) s += one({"- ", "+ "}) + x + (r.chance(20) ? " { " + use(a) + "return 2; }\n" : " { return 2; }\n");
        if (r.chance(40)) s += "- " + one({"(void)", "(__attribute__((ibaction)) void)"}) + "act" + n + ":(id)sender { }\n- (void)free" + n + ":(int)k __attribute__((unused)) { }\n";
        return s + "@end\n";
      } return "int rest" + n + ps + " " + body();
      case 8: return "struct Shape" + n + " { " + one({"virtual ", "", "static "}) + "int area" + ps + " " + body() + one({"virtual ", ""}) + "int out" + ps + "; int away" + ps + "; template <class T> int tm(T t, int x); };\nint Shape" + n + "::out" + ps + " " + body() + "int Shape" + n + "::away" + ps + " " + body() + "template <class T> int Shape" + n + "::tm(T t, int x) { int lo; return x; }\n";
      case 9: return "template <class T> struct Temp" + n + " { int f(T t" + ", int " + a + "); };\ntemplate <class T> int Temp" + n + "<T>::f(T t, int " + a + ") { " + use(a) + local("q") + one({"return t;", "return 1;"}) + " }\n" + (r.chance(50) ? "template struct Temp" + n + "<int>;\n" : "");
      case 10: return "template <class T> int tf" + n + "(T t, int " + a + ") { int lo = 1; auto l = [](int lp) { int li; return 1; }; " + use(a) + "return 1; }\n";
      case 11: return "int lam" + n + "(int " + a + ", int " + b + ") { auto l = [" + one({"", "=", "&", "=", "&"}) + "](auto g, int lp) { " + local("li") + one({"return 1;", "return lp;"}) + " }; " + use(b) + one({"return 1;", "return l(1, 2);"}) + " }\n";
      case 12: return "struct Over" + n + " : Shape { int area(int " + a + ")" + one({"", " override"}) + "; int mine(int " + b + "); };\nint Over" + n + "::area(int " + a + ") { return 1; }\nint Over" + n + "::mine(int " + b + ") { return 1; }\n";
      default: return "int gone" + n + "(int " + a + ") = delete;\nint con" + n + "(int " + a + ", int) { if (int k = calc(1)) { } for (int e : numbers) { } auto [u, v] = Pair{1, 2}; try { " + local("x") + "} catch (Guard &g) { } struct In { int lm(int z) { int deep; return 1; } }; return 1; }\n";
    }
  }
  T prelude() {
    T s;
    if (cpp) s += "struct Node { int value; struct Node *next; struct Node *get(); bool operator!=(int); };\n#define NULL __null\ntemplate <class F> int use(F f) { return f(1); }\ntemplate <class F> int use0(F f) { return f(); }\nint numbers[3];\n";
    else s += "struct Node { int value; struct Node *next; };\n#define NULL ((void *)0)\n";
    s += "enum Color { Red, Green, Blue };\nint calc(int);\nvoid act(void);\nstruct Node *global;\nstruct Node *make(void);\n";
    if (cpp) s += "namespace others { struct Node *left, *right, *node; }\nstruct Node *left, *right; using others::node;\n";
    s += cpp ? "const int limit = 3;\n" : "extern const int limit;\n";
    if (is("S07") && cpp) s += "struct Guard { Guard(); ~Guard(); };\nstruct Pair { int a, b; };\nstruct Shape { virtual int area(int s); };\nnamespace held { template <class T> struct Lock { Lock(); ~Lock(); }; }\nnamespace std { template <class T> struct lock_guard { lock_guard(); ~lock_guard(); }; }\n";
    if (objc) s += "typedef signed char BOOL;\n" + one({"#define YES ((BOOL)1)\n#define NO ((BOOL)0)\n", "#define YES (BOOL)1\n#define NO (BOOL)0\n", "#define YES __objc_yes\n#define NO __objc_no\n"}) + "#define nil ((id)0)\n"
      "__attribute__((objc_root_class)) @interface NSObject\n+ (id)alloc;\n- (id)init;\n- (int)number;\n- (BOOL)isEqual:(id)o;\n- (unsigned)hash;\n@end\n"
      "@interface NSString : NSObject\n+ (id)stringWithUTF8String:(const char *)s;\n@end\n@interface NSException : NSObject\n- (void)raise;\n+ (void)raise:(NSString *)n format:(NSString *)f, ...;\n- (id)description;\n@end\n"
      "@interface Other : NSObject\n- (void)raise;\n@end\nOther *other;\nNSException *failure;\nid list;\n@class NSConstantString;\n@interface NSConstantString : NSString\n@end\n";
    if (is("S09") && objc) {
      T nums;
      for (T k : {"Int int", "Char char", "UnsignedInt unsigned", "Long long", "UnsignedLong unsigned long", "LongLong long long", "UnsignedLongLong unsigned long long", "Float float", "Double double", "Bool BOOL"})
        nums += "+ (id)numberWith" + k.substr(0, k.find(' ')) + ":(" + k.substr(k.find(' ') + 1) + ")v;\n";
      T arr = "+ (id)array;\n+ (id)arrayWithObject:(id)o;\n+ (id)arrayWithObjects:(id)o, ...;\n+ (id)arrayWithObjects:(id *)o count:(unsigned)n;\n+ (id)arrayWithArray:(id)o;\n- (id)objectAtIndex:(unsigned)i;\n- (id)objectAtIndexedSubscript:(unsigned)i;\n- (unsigned)count;\n";
      T dict = "+ (id)dictionary;\n+ (id)dictionaryWithObject:(id)o forKey:(id)k;\n+ (id)dictionaryWithObjects:(id)o forKeys:(id)k;\n+ (id)dictionaryWithObjects:(id *)o forKeys:(id *)k count:(unsigned)n;\n+ (id)dictionaryWithObjectsAndKeys:(id)o, ...;\n+ (id)dictionaryWithDictionary:(id)o;\n- (id)objectForKey:(id)k;\n- (id)objectForKeyedSubscript:(id)k;\n";
      s += "@interface NSNumber : NSObject\n" + nums + "@end\n@interface NSOther : NSObject\n" + nums + arr + dict + "+ (id)stringWithUTF8String:(const char *)s;\n@end\n"
        "@interface NSArray : NSObject\n" + arr + "@end\n@interface NSMutableArray : NSArray\n- (void)replaceObjectAtIndex:(unsigned)i withObject:(id)o;\n- (void)setObject:(id)o atIndexedSubscript:(unsigned)i;\n@end\n"
        "@interface NSDictionary : NSObject\n" + dict + "@end\n@interface NSMutableDictionary : NSDictionary\n- (void)setObject:(id)o forKey:(id)k;\n- (void)setObject:(id)o forKeyedSubscript:(id)k;\n@end\n"
        "NSArray *arr; NSMutableArray *marr; NSDictionary *dict; NSMutableDictionary *mdict; id items[2]; id o; int n; char *words; char buffer[4]; const char *fixed; char *text(void); const char *constant(void); int numbers2[9];\n"
        "typedef NSArray *Named; Named narr;\n";
    }
    return s;
  }
};
}
#endif
