// R01-R05: the real reporters on generated results; the reports are read back by readers of their formats.
#include "h.h"
#include <map>
#include <memory>
#include "oclint/Constants.h"
#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"
using namespace oclint;
using namespace h;
extern "C" Reporter *create_text(), *create_xcode(), *create_json(), *create_xml(), *create_pmd(), *create_html();

struct R : RuleBase {
  std::string n, c; int p;
  R(std::string n, std::string c, int p) : n(n), c(c), p(p) {}
  void apply() override {}
  const std::string name() const override { return n; }
  const std::string category() const override { return c; }
  int priority() const override { return p; }
};
struct Fake : Results {
  std::vector<Violation> v, e, w, b;
  int files = 0, bad = 0, prio[5] = {0, 0, 0, 0, 0};
  std::vector<std::unique_ptr<R>> rules;
  std::vector<Violation> allViolations() const override { return v; }
  int numberOfViolations() const override { return v.size(); }
  int numberOfViolationsWithPriority(int p) const override { return prio[p < 0 || p > 4 ? 4 : p]; }
  int numberOfFiles() const override { return files; }
  int numberOfFilesWithViolations() const override { return bad; }
  int numberOfErrors() const override { return e.size(); }
  bool hasErrors() const override { return !e.empty(); }
  const std::vector<Violation>& allErrors() const override { return e; }
  int numberOfWarnings() const override { return w.size(); }
  bool hasWarnings() const override { return !w.empty(); }
  const std::vector<Violation>& allWarnings() const override { return w; }
  int numberOfCheckerBugs() const override { return b.size(); }
  bool hasCheckerBugs() const override { return !b.empty(); }
  const std::vector<Violation>& allCheckerBugs() const override { return b; }
};
static bool breaks;   // texts may contain line breaks and tabs
static bool control;  // and control characters
static std::string text(Rng& r) {
  static const std::vector<std::string> t{"", "a", "b", "/x/a.m", "/x/b c.m", "/x/\"q\".m", "<", ">", "&", "\"", "'", "\\", "/", "&amp;", "&#10;", "\\n", "\\u0041", "]]>", "<!--",
                                          "é", "日本", "\xF0\x9F\x98\x80", "{", "}", "[", "]", ",", ":", "</td>", "<td>", "x\\", " ", "#", "\x7f", "0", "1"};
  static const std::vector<std::string> nl{"\n", "\r", "\t", "\r\n"};
  std::string s;
  int n = r.chance(50) ? 1 : r.below(5);
  for (int i = 0; i < n; ++i) {
    if (breaks && r.chance(12)) s += r.pick(nl);
    else if (control && r.chance(8)) s += (char)(1 + r.below(31));
    else s += r.pick(t);
  }
  return s;
}
static std::string nonspace(Rng& r) { return "m" + text(r) + "."; }
static int num(Rng& r) {
  static const std::vector<int> big{0, 1, 9, 10, 99, 100, 12345, 65536, 2147483647, -1};
  return r.chance(60) ? r.below(4) : r.pick(big);
}
static std::vector<Violation> list(Rng& r, Fake& f, bool rules) {
  std::vector<Violation> v;
  int n = r.chance(30) ? 0 : r.below(5);
  for (int i = 0; i < n; ++i) {
    if (!v.empty() && r.chance(25)) { Violation x = r.pick(v); v.push_back(x); continue; }
    R* rule = nullptr;
    if (rules) {
      if (f.rules.empty() || r.chance(50)) f.rules.emplace_back(new R(text(r), text(r), r.range(1, 3)));
      rule = f.rules[r.below(f.rules.size())].get();
    }
    v.push_back(Violation(rule, text(r), num(r), num(r), num(r), num(r), nonspace(r)));
  }
  return v;
}
static void fill(Rng& r, Fake& f) {
  f.v = list(r, f, true); f.e = list(r, f, false); f.w = list(r, f, false); f.b = list(r, f, false);
  f.files = num(r); f.bad = num(r);
  for (int i = 0; i < 5; ++i) f.prio[i] = num(r);
  if (f.v.size() + f.e.size() + f.w.size() + f.b.size()) ctx().nontrivial++;
}
static std::string show(const std::string& n, const std::vector<Violation>& l) {
  std::ostringstream o;
  for (auto& v : l) {
    o << n << ": " << quote(v.path) << " " << v.startLine << ":" << v.startColumn << "-" << v.endLine << ":" << v.endColumn;
    if (v.rule) o << " rule " << quote(v.rule->name()) << " category " << quote(v.rule->category()) << " priority " << v.rule->priority();
    o << " message " << quote(v.message) << "\n";
  }
  return o.str();
}
static std::string show(const Fake& f) {
  std::ostringstream o;
  o << "files " << f.files << " with violations " << f.bad << " P1 " << f.prio[1] << " P2 " << f.prio[2] << " P3 " << f.prio[3] << "\n"
    << show("violation", f.v) << show("error", f.e) << show("warning", f.w) << show("finding", f.b);
  return o.str();
}
static std::string report(Reporter* rep, Fake& f) {
  std::ostringstream o;
  rep->report(&f, o);
  return o.str();
}
static void eq(const std::string& what, const Fake& f, const std::string& exp, const std::string& act, const std::string& rep) {
  if (exp != act) fail(what, show(f) + "report: " + quote(rep), quote(exp), quote(act));
}
// a violation as a reader of a report sees it
typedef std::map<std::string, std::string> Item;
static std::string show(const Item& i) { std::string s; for (auto& e : i) s += e.first + "=" + quote(e.second) + " "; return s; }
static void same(const std::string& what, const Fake& f, const std::vector<Item>& exp, const std::vector<Item>& act, const std::string& rep) {
  for (size_t i = 0; i < std::max(exp.size(), act.size()); ++i) {
    std::string a = i < exp.size() ? show(exp[i]) : "(none)", b = i < act.size() ? show(act[i]) : "(none)";
    if (a != b) fail(what + " " + str(i + 1), show(f) + "report: " + quote(rep), a, b);
  }
}

// ---- text
static std::string place(const Violation& v) { return v.path + ":" + str(v.startLine) + ":" + str(v.startColumn); }
static void lines(Rng& r) {
  breaks = control = false;
  Fake f; fill(r, f);
  std::unique_ptr<Reporter> t(create_text()), x(create_xcode());
  if (t->name() != "text" || x->name() != "xcode") fail("name of the reporter", "", "text, xcode", t->name() + ", " + x->name());
  std::string rep = report(t.get(), f), xr = report(x.get(), f), exp;
  std::istringstream in(rep);
  std::vector<std::string> ls; std::string l;
  while (std::getline(in, l)) ls.push_back(l);
  auto at = [&](const std::string& head) { for (size_t i = 0; i < ls.size(); ++i) if (ls[i].compare(0, head.size(), head) == 0) return (int)i; return -1; };
  struct S { const char* head; const std::vector<Violation>* l; int skip; } secs[] = {{"Compiler Errors:", &f.e, 3}, {"Compiler Warnings:", &f.w, 2}, {"Clang Static Analyzer Results:", &f.b, 2}};
  for (auto& s : secs) {
    int i = at(s.head);
    if ((i >= 0) != !s.l->empty()) fail(std::string("section ") + s.head, show(f) + "report: " + quote(rep), s.l->empty() ? "left out" : "present", i >= 0 ? "present" : "left out");
    if (i < 0) continue;
    size_t k = i + s.skip;
    for (auto& v : *s.l) { eq(std::string("entry of ") + s.head, f, place(v) + ": " + v.message, k < ls.size() ? ls[k] : "(none)", rep); k++; }
    eq(std::string("end of ") + s.head, f, "", k < ls.size() ? ls[k] : "(none)", rep);
  }
  int i = at("Summary: ");
  eq("summary", f, "Summary: TotalFiles=" + str(f.files) + " FilesWithViolations=" + str(f.bad) + " P1=" + str(f.prio[1]) + " P2=" + str(f.prio[2]) + " P3=" + str(f.prio[3]) + " ", i < 0 ? "(none)" : ls[i], rep);
  size_t k = i + 2;
  for (auto& v : f.v) {
    std::string tail = v.rule->name() + " [" + v.rule->category() + "|P" + str(v.rule->priority()) + "] " + v.message;
    eq("violation line", f, place(v) + ": " + tail, k < ls.size() ? ls[k] : "(none)", rep); k++;
    exp += place(v) + ": warning: " + tail + "\n";
  }
  eq("end of violations", f, "", k < ls.size() ? ls[k] : "(none)", rep);
  eq("footer", f, "[OCLint (" + Constants::homepage() + ") v" + Constants::version() + "]", k + 1 < ls.size() ? ls[k + 1] : "(none)", rep);
  eq("Xcode report", f, exp, xr, xr);
  sample(rep);
}

// ---- JSON
struct J { char k = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  const J* get(const std::string& n) const { const J* r = nullptr; for (auto& e : o) if (e.first == n) { if (r) return nullptr; r = &e.second; } return r; } };
struct JP {
  const std::string& t; size_t p = 0; std::string err;
  explicit JP(const std::string& t) : t(t) {}
  void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) ++p; }
  bool bad(const std::string& m) { if (err.empty()) err = m + " at byte " + str(p); return false; }
  bool lit(char c) { ws(); if (p < t.size() && t[p] == c) { ++p; return true; } return bad(std::string("expected ") + c); }
  static void utf8(std::string& s, unsigned c) {
    if (c < 128) s += (char)c;
    else if (c < 2048) { s += (char)(192 | c >> 6); s += (char)(128 | (c & 63)); }
    else if (c < 65536) { s += (char)(224 | c >> 12); s += (char)(128 | (c >> 6 & 63)); s += (char)(128 | (c & 63)); }
    else { s += (char)(240 | c >> 18); s += (char)(128 | (c >> 12 & 63)); s += (char)(128 | (c >> 6 & 63)); s += (char)(128 | (c & 63)); }
  }
  bool hex(unsigned& c) { c = 0; for (int i = 0; i < 4; ++i, ++p) { if (p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("hex digit"); c = c * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (tolower(t[p]) - 'a' + 10)); } return true; }
  bool string(std::string& s) {
    if (!lit('"')) return false;
    while (true) {
      if (p >= t.size()) return bad("unterminated string");
      unsigned char c = t[p++];
      if (c == '"') return true;
      if (c < 32) { --p; return bad("control character in string"); }
      if (c != '\\') { s += c; continue; }
      if (p >= t.size()) return bad("unterminated string");
      c = t[p++];
      switch (c) {
        case '"': case '\\': case '/': s += c; break;
        case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
        case 'u': { unsigned x, y; if (!hex(x)) return false;
          if (x >= 0xD800 && x < 0xDC00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { p += 2; if (!hex(y)) return false; x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00); }
          utf8(s, x); break; }
        default: --p; return bad("unknown escape");
      }
    }
  }
  bool value(J& j) {
    ws();
    if (p >= t.size()) return bad("value expected");
    char c = t[p];
    if (c == '"') { j.k = 's'; return string(j.s); }
    if (c == '{') {
      j.k = 'o'; ++p; ws();
      if (p < t.size() && t[p] == '}') { ++p; return true; }
      while (true) { ws(); std::pair<std::string, J> e; if (!string(e.first) || !lit(':') || !value(e.second)) return false; j.o.push_back(e); ws(); if (p < t.size() && t[p] == ',') { ++p; continue; } return lit('}'); }
    }
    if (c == '[') {
      j.k = 'a'; ++p; ws();
      if (p < t.size() && t[p] == ']') { ++p; return true; }
      while (true) { J e; if (!value(e)) return false; j.a.push_back(e); ws(); if (p < t.size() && t[p] == ',') { ++p; continue; } return lit(']'); }
    }
    if (c == '-' || isdigit((unsigned char)c)) {
      j.k = 'n'; j.s += c; ++p;
      while (p < t.size() && (isdigit((unsigned char)t[p]) || strchr("+-.eE", t[p])) && t[p]) j.s += t[p++];
      size_t d = j.s[0] == '-';
      if (d >= j.s.size() || (j.s[d] == '0' && j.s.size() > d + 1 && isdigit((unsigned char)j.s[d + 1]))) return bad("number");
      return true;
    }
    for (std::string w : {"true", "false", "null"}) if (t.compare(p, w.size(), w) == 0) { j.k = 'l'; j.s = w; p += w.size(); return true; }
    return bad("value expected");
  }
};
static Item item(const Violation& v, const std::string& line, const std::string& column) {
  Item i{{"path", v.path}, {"message", v.message}, {"start" + line, str(v.startLine)}, {"start" + column, str(v.startColumn)}};
  if (v.endLine && v.endColumn) { i["end" + line] = str(v.endLine); i["end" + column] = str(v.endColumn); }
  if (v.rule) { i["rule"] = v.rule->name(); i["category"] = v.rule->category(); i["priority"] = str(v.rule->priority()); }
  return i;
}
static std::vector<Item> itemsOf(const std::vector<Violation>& l, const std::string& line, const std::string& column) {
  std::vector<Item> r;
  for (auto& v : l) r.push_back(item(v, line, column));
  return r;
}
static void json(Rng& r) {
  breaks = control = true;
  Fake f; fill(r, f);
  std::unique_ptr<Reporter> rp(create_json());
  if (rp->name() != "json") fail("name of the reporter", "", "json", rp->name());
  std::string rep = report(rp.get(), f);
  JP p(rep); J j;
  bool ok = p.value(j); p.ws();
  if (!ok || p.p != rep.size()) fail("JSON syntax", show(f) + "report: " + quote(rep), "one JSON document", p.err.empty() ? "text after the document" : p.err);
  auto need = [&](const J* o, const std::string& n, char k) -> const J* {
    const J* x = o->k == 'o' ? o->get(n) : nullptr;
    if (!x || x->k != k) fail("member " + n, show(f) + "report: " + quote(rep), "present once", "missing, repeated or of another type");
    return x;
  };
  const J* s = need(&j, "summary", 'o');
  eq("numberOfFiles", f, str(f.files), need(s, "numberOfFiles", 'n')->s, rep);
  eq("numberOfFilesWithViolations", f, str(f.bad), need(s, "numberOfFilesWithViolations", 'n')->s, rep);
  const J* pr = need(s, "numberOfViolationsWithPriority", 'a');
  std::string ps, pe;
  for (auto& e : pr->a) ps += need(&e, "priority", 'n')->s + ":" + need(&e, "number", 'n')->s + " ";
  for (int i = 1; i <= 3; ++i) pe += str(i) + ":" + str(f.prio[i]) + " ";
  eq("numberOfViolationsWithPriority", f, pe, ps, rep);
  eq("version", f, Constants::version(), need(&j, "version", 's')->s, rep);
  eq("url", f, Constants::homepage(), need(&j, "url", 's')->s, rep);
  auto read = [&](const J* a) {
    std::vector<Item> v;
    for (auto& e : a->a) {
      Item i;
      if (e.k != 'o') fail("an entry", show(f) + "report: " + quote(rep), "an object", "something else");
      for (auto& m : e.o) {
        bool txt = m.first == "path" || m.first == "rule" || m.first == "category" || m.first == "message";
        if (m.second.k != (txt ? 's' : 'n') || i.count(m.first)) fail("member " + m.first, show(f) + "report: " + quote(rep), "present once", "repeated or of another type");
        i[m.first] = m.second.s;
      }
      v.push_back(i);
    }
    return v;
  };
  same("violation", f, itemsOf(f.v, "Line", "Column"), read(need(&j, "violation", 'a')), rep);
  same("checker finding", f, itemsOf(f.b, "Line", "Column"), read(need(&j, "clangStaticAnalyzer", 'a')), rep);
  sample(rep);
}

// ---- XML
struct X { std::string n, text; std::vector<std::pair<std::string, std::string>> at; std::vector<X> c;
  const X* one(const std::string& m) const { const X* r = nullptr; for (auto& x : c) if (x.n == m) { if (r) return nullptr; r = &x; } return r; }
  std::vector<const X*> all(const std::string& m) const { std::vector<const X*> r; for (auto& x : c) if (x.n == m) r.push_back(&x); return r; }
  Item attrs() const { Item i; for (auto& a : at) i[a.first] = a.second; return i; } };
struct XP {
  const std::string& t; size_t p = 0; std::string err; bool html;
  XP(const std::string& t, bool html) : t(t), html(html) {}
  bool bad(const std::string& m) { if (err.empty()) err = m + " at byte " + str(p); return false; }
  static bool nm(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.' || c == ':'; }
  static bool sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
  void ws() { while (p < t.size() && sp(t[p])) ++p; }
  bool name(std::string& s) { while (p < t.size() && nm(t[p])) s += t[p++]; return !s.empty() || bad("name"); }
  bool ref(std::string& s) {
    size_t e = t.find(';', p);
    if (e == std::string::npos || e - p > 10) return bad("unterminated reference");
    std::string n = t.substr(p + 1, e - p - 1);
    if (n == "lt") s += '<'; else if (n == "gt") s += '>'; else if (n == "amp") s += '&'; else if (n == "quot") s += '"'; else if (n == "apos") s += '\'';
    else if (n.size() > 1 && n[0] == '#') { bool hx = n[1] == 'x'; char* q; unsigned long c = strtoul(n.c_str() + (hx ? 2 : 1), &q, hx ? 16 : 10); if (*q || q == n.c_str() + (hx ? 2 : 1)) return bad("character reference"); JP::utf8(s, c); }
    else return bad("unknown entity " + n);
    p = e + 1;
    return true;
  }
  bool chars(std::string& s) {
    while (p < t.size() && t[p] != '<') {
      if (t[p] == '&') { if (!ref(s)) return false; continue; }
      if (!html && t.compare(p, 3, "]]>") == 0) return bad("]]> in text");
      if ((unsigned char)t[p] < 32 && !sp(t[p])) return bad("control character");
      s += t[p++] == '\r' && !html ? '\n' : t[p - 1];
    }
    return true;
  }
  bool element(X& x) {
    if (p >= t.size() || t[p] != '<') return bad("element");
    ++p;
    if (!name(x.n)) return false;
    while (true) {
      size_t q = p; ws();
      if (p >= t.size()) return bad("unterminated tag");
      if (t[p] == '>') { ++p; break; }
      if (t[p] == '/' && t.compare(p, 2, "/>") == 0) { p += 2; return true; }
      if (p == q) return bad("space before attribute");
      std::string k, v;
      if (!name(k)) return false;
      if (p >= t.size() || t[p] != '=') return bad("=");
      ++p;
      char d = p < t.size() ? t[p] : 0;
      if (d != '"' && d != '\'') return bad("quote");
      ++p;
      while (p < t.size() && t[p] != d) {
        if (t[p] == '<') return bad("< in attribute");
        if (t[p] == '&') { if (!ref(v)) return false; continue; }
        if ((unsigned char)t[p] < 32 && !sp(t[p])) return bad("control character");
        v += sp(t[p]) ? ' ' : t[p]; ++p;
      }
      if (p >= t.size()) return bad("unterminated attribute");
      ++p;
      for (auto& a : x.at) if (a.first == k) return bad("attribute " + k + " repeated");
      x.at.emplace_back(k, v);
    }
    if (html && (x.n == "hr" || x.n == "br" || x.n == "meta")) return true;
    if (html && (x.n == "style" || x.n == "script")) { size_t e = t.find("</" + x.n + ">", p); if (e == std::string::npos) return bad("unterminated " + x.n); x.text = t.substr(p, e - p); p = e + x.n.size() + 3; return true; }
    while (true) {
      if (!chars(x.text)) return false;
      if (p >= t.size()) return bad("element " + x.n + " not closed");
      if (t.compare(p, 2, "</") == 0) {
        p += 2; std::string e;
        if (!name(e)) return false;
        if (e != x.n) return bad("</" + e + "> closes <" + x.n + ">");
        ws();
        if (p >= t.size() || t[p] != '>') return bad(">");
        ++p;
        return true;
      }
      X c;
      if (!element(c)) return false;
      x.c.push_back(c);
    }
  }
};
static X parse(const std::string& rep, const Fake& f, bool html) {
  XP p(rep, html); X x;
  bool ok = true;
  std::string head = html ? "<!DOCTYPE html>" : "<?xml version=\"1.0\" encoding=\"UTF-8\"";
  if (rep.compare(0, head.size(), head)) ok = p.bad("declaration " + head);
  else { p.p = html ? head.size() : rep.find("?>"); if (!html) p.p += 2; }
  p.ws();
  ok = ok && p.element(x);
  p.ws();
  if (ok && p.p != rep.size()) ok = p.bad("text after the document");
  if (!ok) fail(html ? "HTML syntax" : "XML syntax", show(f) + "report: " + quote(rep), "a well formed document", p.err);
  return x;
}
static void xml(Rng& r) {
  breaks = true; control = false;
  Fake f; fill(r, f);
  std::unique_ptr<Reporter> rp(create_xml());
  if (rp->name() != "xml") fail("name of the reporter", "", "xml", rp->name());
  time_t t0 = time(nullptr);
  std::string rep = report(rp.get(), f);
  time_t t1 = time(nullptr);
  X x = parse(rep, f, false);
  auto need = [&](const X& o, const std::string& n) -> const X& {
    const X* y = o.one(n);
    if (!y) fail("element " + n, show(f) + "report: " + quote(rep), "present once", "missing or repeated");
    return *y;
  };
  eq("root", f, "oclint", x.n, rep);
  Item ra = x.attrs();
  eq("version", f, Constants::version(), ra["version"], rep);
  eq("url", f, Constants::homepage(), ra["url"], rep);
  struct tm tm; memset(&tm, 0, sizeof tm);
  const std::string& d = need(x, "datetime").text;
  char z = 0;
  bool dt = sscanf(d.c_str(), "%d-%d-%dT%d:%d:%d%c", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &z) == 7 && z == 'Z' && d.size() == 20;
  tm.tm_year -= 1900; tm.tm_mon -= 1;
  time_t t = dt ? timegm(&tm) : -1;
  if (t < t0 || t > t1) fail("datetime", show(f) + "report: " + quote(rep), "the time of the report (" + str(t0) + ")", d);
  std::string s;
  for (auto p : need(x, "summary").all("property")) s += p->attrs()["name"] + "=" + p->text + ";";
  eq("summary", f, "number of files=" + str(f.files) + ";files with violations=" + str(f.bad) + ";number of priority 1 violations=" + str(f.prio[1]) + ";number of priority 2 violations=" + str(f.prio[2]) +
     ";number of priority 3 violations=" + str(f.prio[3]) + ";", s, rep);
  auto read = [&](const X& o) { std::vector<Item> v; for (auto& c : o.c) { if (c.n != "violation") fail("element", show(f), "violation", c.n); v.push_back(c.attrs()); } return v; };
  same("violation", f, itemsOf(f.v, "line", "column"), read(need(x, "violations")), rep);
  same("checker finding", f, itemsOf(f.b, "line", "column"), read(need(x, "clangstaticanalyzer")), rep);
  sample(rep);
}
static Item pmdItem(const Violation& v, int prio, const std::string& rule, const std::string& set) {
  return Item{{"name", v.path}, {"begincolumn", str(v.startColumn)}, {"endcolumn", str(v.endColumn)}, {"beginline", str(v.startLine)}, {"endline", str(v.endLine)},
              {"priority", str(prio)}, {"rule", rule}, {"ruleset", set}, {"text", "\n" + v.message + "\n"}};
}
static void pmd(Rng& r) {
  breaks = control = false;
  Fake f; fill(r, f);
  std::unique_ptr<Reporter> rp(create_pmd());
  if (rp->name() != "pmd") fail("name of the reporter", "", "pmd", rp->name());
  std::string rep = report(rp.get(), f);
  X x = parse(rep, f, false);
  eq("root", f, "pmd", x.n, rep);
  eq("version", f, "oclint-" + Constants::version(), x.attrs()["version"], rep);
  std::vector<Item> exp, act;
  for (auto& v : f.e) exp.push_back(pmdItem(v, 1, "compiler error", "clang"));
  for (auto& v : f.w) exp.push_back(pmdItem(v, 2, "compiler warning", "clang"));
  for (auto& v : f.v) exp.push_back(pmdItem(v, 2 * v.rule->priority() - 1, v.rule->name(), v.rule->category()));
  for (auto& v : f.b) exp.push_back(pmdItem(v, 2, "clang static analyzer", "clang"));
  for (auto& c : x.c) {
    if (c.n != "file" || c.c.size() != 1 || c.c[0].n != "violation" || !c.c[0].c.empty()) fail("structure", show(f) + "report: " + quote(rep), "a file element with one violation element", c.n);
    Item i = c.c[0].attrs();
    for (auto& a : c.attrs()) i[a.first] = a.second;
    i["text"] = c.c[0].text;
    act.push_back(i);
  }
  same("entry", f, exp, act, rep);
  sample(rep);
}
static void html(Rng& r) {
  breaks = true; control = false;
  Fake f; fill(r, f);
  std::unique_ptr<Reporter> rp(create_html());
  if (rp->name() != "html") fail("name of the reporter", "", "html", rp->name());
  std::string rep = report(rp.get(), f);
  X x = parse(rep, f, true);
  const X* body = x.one("body");
  if (!body || body->all("table").size() != 2) fail("structure", show(f) + "report: " + quote(rep), "two tables", "something else");
  const X &sum = *body->all("table")[0], &det = *body->all("table")[1];
  auto rows = [&](const X& t) {
    const X* b = t.one("tbody");
    if (!b) fail("structure", show(f) + "report: " + quote(rep), "tbody", "none");
    std::vector<Item> v;
    for (auto& tr : b->c) {
      Item i;
      int k = 0;
      if (tr.n != "tr") fail("structure", show(f) + "report: " + quote(rep), "tr", tr.n);
      for (auto& td : tr.c) { if (td.n != "td" || !td.c.empty()) fail("structure", show(f) + "report: " + quote(rep), "td with text", td.n); i[str(k++)] = td.text; }
      v.push_back(i);
    }
    return v;
  };
  same("summary", f, {Item{{"0", str(f.files)}, {"1", str(f.bad)}, {"2", str(f.prio[1])}, {"3", str(f.prio[2])}, {"4", str(f.prio[3])}, {"5", str(f.e.size())}, {"6", str(f.w.size())}, {"7", str(f.b.size())}}}, rows(sum), rep);
  std::vector<Item> exp;
  auto add = [&](const Violation& v, const std::string& a, const std::string& b, const std::string& c) {
    exp.push_back(Item{{"0", v.path}, {"1", str(v.startLine) + ":" + str(v.startColumn)}, {"2", a}, {"3", b}, {"4", c}, {"5", v.message}});
  };
  for (auto& v : f.v) add(v, v.rule->name(), v.rule->category(), str(v.rule->priority()));
  for (auto& v : f.e) add(v, "compiler error", "", "error");
  for (auto& v : f.w) add(v, "compiler warning", "", "warning");
  for (auto& v : f.b) add(v, "clang static analyzer", "", "checker bug");
  same("row", f, exp, rows(det), rep);
  sample(rep.substr(rep.find("<tbody>")));
}
int main(int argc, char** argv) { return run(argc, argv, {{"R01", lines}, {"R02", json}, {"R03", xml}, {"R04", pmd}, {"R05", html}}); }
