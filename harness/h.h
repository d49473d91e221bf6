// Common parts of the native replay harnesses: they run the real code of /repo on generated inputs and
// compare it with an executable statement of the property.
#ifndef H_H
#define H_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace h {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed ^ 0x5851F42D4C957F2Dull) { s = next() ^ (seed << 32); s = next(); }   // far apart for neighbouring seeds
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
struct Ctx {
  std::string property, out, arg;
  uint64_t seed = 1;
  double seconds = 5;
  long cases = 0, nontrivial = 0;
  std::vector<std::string> samples;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  volatile bool parsing = false;   // clang alone is at work, none of the code under test
  bool more() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds; }
};
inline Ctx& ctx() { static Ctx c; return c; }
inline std::string quote(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
// reports a failing input against the real code and ends the run
[[noreturn]] inline void fail(const std::string& what, const std::string& input, const std::string& expected, const std::string& actual) {
  std::ostringstream o;
  o << "property: " << ctx().property << "\nwhat fails: " << what << "\nseed: " << ctx().seed << " case: " << ctx().cases
    << "\ninput:\n" << input << "\nexpected: " << expected << "\nactual:   " << actual << "\n";
  if (!ctx().out.empty()) { std::ofstream f(ctx().out); f << o.str(); }
  std::cout << "FAIL\n" << o.str();
  std::cout.flush();
  _Exit(1);
}
// Held while clang parses a generated program. If clang itself crashes or hangs on it, that says nothing about the code
// under test: the run ends there with what it has covered.
struct Parsing { Parsing() { ctx().parsing = true; } ~Parsing() { ctx().parsing = false; } };
inline void onSignal(int s) {
  if (ctx().parsing) {
    std::cout << "OK cases=" << ctx().cases << " nontrivial=" << ctx().nontrivial << "\n";
    std::cout.flush();
    _exit(0);
  }
  if (s == SIGALRM) {
    std::ifstream f("current"); std::ostringstream o; o << f.rdbuf();
    fail("the code under test does not come to an end", o.str(), "an answer", "none within 60 s");
  }
  signal(s, SIG_DFL); raise(s);
}
inline void guard() {
  static char stack[1 << 16];
  stack_t st{}; st.ss_sp = stack; st.ss_size = sizeof stack; sigaltstack(&st, nullptr);
  struct sigaction a{}; a.sa_handler = onSignal; a.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &a, nullptr);
}
inline void sample(const std::string& s) { if (ctx().samples.size() < 4) ctx().samples.push_back(s.substr(0, 400)); }
typedef std::function<void(Rng&)> Case;
inline int run(int argc, char** argv, const std::vector<std::pair<std::string, Case>>& table) {
  Ctx& c = ctx();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--property") c.property = argv[i + 1];
    if (a == "--out") c.out = argv[i + 1];
    if (a == "--seed") c.seed = strtoull(argv[i + 1], 0, 10);
    if (a == "--seconds") c.seconds = atof(argv[i + 1]);
    if (a == "--arg") c.arg = argv[i + 1];
  }
  for (auto& e : table)
    if (e.first == c.property) {
      Rng base(c.seed);
      long max = 200000;
      guard();
      while (c.cases < max && (c.more() || c.cases == 0)) { Rng r(base.next()); c.cases++; alarm(60); e.second(r); }
      alarm(0);
      std::cout << "OK cases=" << c.cases << " nontrivial=" << c.nontrivial << "\n";
      for (auto& s : c.samples) std::cout << "SAMPLE " << quote(s) << "\n";
      return 0;
    }
  std::cout << "NOPROP " << c.property << "\n";
  return 3;
}
template <typename T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
}
#endif
