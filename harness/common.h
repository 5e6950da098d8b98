// Common part of the conformance drivers: script reading, one forked child per script, NDJSON event
// emission.  A driver is `driver SCRIPTS OUT`: SCRIPTS holds scripts introduced by lines `S <id>`,
// OUT receives one JSON object per line.  A script always yields `begin`, its events and then either
// `end` or `crash` (abnormal termination of the library code; no specification action matches it).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <sstream>
#include <fstream>
#include <iostream>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <sys/resource.h>
#include "sys.h"

static int g_out = -1;
static const int SENT = -2000000001;   // "not representable": never equal to a modelled value

struct J {
  std::string s; bool first = true;
  J(const char* e) { s = "{\"e\":\""; s += e; s += "\""; first = false; }
  J& raw(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
  J& i(const char* k, long long v) {
    if (v > 2000000000LL || v < -2000000000LL) v = SENT;
    return raw(k, std::to_string(v)); }
  J& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  static std::string esc(const std::string& v) {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; }
      else r += (char)c;
    }
    return r + "\"";
  }
  J& str(const char* k, const std::string& v) { return raw(k, esc(v)); }
  void out() {
    s += "}\n";
    const char* p = s.data(); size_t n = s.size();
    while (n) { ssize_t w = write(g_out, p, n); if (w <= 0) _exit(99); p += w; n -= w; }
  }
};

// exact integer value of a double, SENT when it is not one (tolerance for values which went through
// floating point arithmetic)
inline int exact(double v, double tol = 0.0) {
  if (!std::isfinite(v) || fabs(v) > 2.0e9) return SENT;
  double r = std::floor(v + 0.5);
  if (fabs(v - r) > tol) return SENT;
  return (int) r;
}
// fixed point value
inline int fixp(double v, double scale) {
  double x = v * scale;
  if (!std::isfinite(x) || fabs(x) > 2.0e9) return SENT;
  return (int) std::floor(x + 0.5);
}
template <class C> std::string jarr(const C& c) {
  std::string r = "["; bool f = true;
  for (auto& v : c) { if (!f) r += ","; f = false; r += std::to_string((long long) v); }
  return r + "]";
}
inline std::string jarrs(const std::vector<std::string>& c) {
  std::string r = "["; bool f = true;
  for (auto& v : c) { if (!f) r += ","; f = false; r += v; }
  return r + "]";
}
inline std::string jstrs(const std::vector<std::string>& c) {
  std::vector<std::string> q; for (auto& v : c) q.push_back(J::esc(v));
  return jarrs(q);
}

typedef std::vector<std::string> Toks;
inline Toks toks(const std::string& l) { std::istringstream is(l); Toks t; std::string w; while (is >> w) t.push_back(w); return t; }
inline long I(const std::string& s) { return strtol(s.c_str(), 0, 10); }
inline double D(const std::string& s) { return strtod(s.c_str(), 0); }

typedef std::vector<std::string> Script;
void runScript(const Script& s);      // provided by the driver

inline void quietLog() {
  el::Configurations c; c.setToDefault();
  c.setGlobally(el::ConfigurationType::ToFile, "false");
  c.setGlobally(el::ConfigurationType::ToStandardOutput, "false");
  el::Loggers::reconfigureAllLoggers(c);
  el::Loggers::setDefaultConfigurations(c, true);
}

inline int driverMain(int argc, char** argv) {
  if (argc < 3) return 2;
  quietLog();
  g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (g_out < 0) return 2;
  int limit = argc > 3 ? atoi(argv[3]) : 300;
  std::ifstream in(argv[1]); std::string line;
  std::vector<std::pair<std::string, Script>> all;
  while (std::getline(in, line)) {
    if (line.compare(0, 2, "S ") == 0) all.push_back({line.substr(2), Script()});
    else if (all.size() && line.size()) all.back().second.push_back(line);
  }
  int hung = 0;
  for (auto& sc : all) {
    if (hung == 2) break;                // the rest would hang as well
    J("begin").str("id", sc.first).out();
    fflush(0);
    pid_t p = fork();
    if (p < 0) return 3;
    if (p == 0) {
      setpgid(0, 0); alarm(limit);
      struct rlimit rl = {1u << 28, 1u << 28}; setrlimit(RLIMIT_FSIZE, &rl);   // files written for ever
      // the library prints on stdout/stderr here and there: keep it out of the way
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1); if (!getenv("DRV_STDERR")) dup2(dn, 2);
      runScript(sc.second);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    kill(-p, SIGKILL);                   // and whatever the script has started
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) J("end").out();
    else { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung++; J("crash").i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 0).out(); }
  }
  return 0;
}
