// Shared parts of the conformance drivers: script reader, JSON trace writer, one forked process per scenario.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

#include <cxxabi.h>

namespace v {
inline std::string num(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  snprintf(b, sizeof b, "\"%.17g\"", x);
  return b;
}
inline std::string str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template<class T, class F> std::string list(const T &t, F f) {
  std::string r = "[";
  bool first = true;
  for (const auto &x : t) { if (!first) r += ","; first = false; r += f(x); }
  return r + "]";
}
inline std::string nums(const std::vector<double> &x) { return list(x, [](double d) { return num(d); }); }
template<class T> std::string ints(const T &x) { return list(x, [](long d) { return std::to_string(d); }); }

// one JSON object under construction
struct Obj {
  std::string s = "{";
  Obj &raw(const std::string &k, const std::string &val) {
    if (s.size() > 1) s += ",";
    s += "\"" + k + "\":" + val;
    return *this;
  }
  Obj &S(const std::string &k, const std::string &val) { return raw(k, str(val)); }
  Obj &I(const std::string &k, long val) { return raw(k, std::to_string(val)); }
  Obj &B(const std::string &k, bool val) { return raw(k, val ? "true" : "false"); }
  Obj &N(const std::string &k, double val) { return raw(k, num(val)); }
  Obj &L(const std::string &k, const std::vector<double> &val) { return raw(k, nums(val)); }
  template<class T> Obj &IL(const std::string &k, const T &val) { return raw(k, ints(val)); }
  std::string done() const { return s + "}"; }
};

// tokens of one script line
struct Line {
  std::vector<std::string> t;
  size_t i = 0;
  std::string w() {
    if (i >= t.size()) { fprintf(stderr, "script: missing token in line starting %s\n", t.empty() ? "" : t[0].c_str()); _exit(64); }
    return t[i++];
  }
  bool more() const { return i < t.size(); }
  int n() { return atoi(w().c_str()); }
  double d() { return strtod(w().c_str(), nullptr); }
  std::vector<double> ds() { int k = n(); std::vector<double> r; for (int j = 0; j < k; ++j) r.push_back(d()); return r; }
  std::vector<int> is() { int k = n(); std::vector<int> r; for (int j = 0; j < k; ++j) r.push_back(n()); return r; }
};

inline std::string exname(const std::exception &e) {
  int st = 0;
  char *p = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string r = p ? p : "exception";
  free(p);
  return r;
}

struct Out {
  FILE *f;
  void event(const std::string &json) { fputs(json.c_str(), f); fputc('\n', f); fflush(f); }
};

// Runs every scenario of the script in a process of its own. A scenario whose process dies or does not finish in
// `seconds` gets a final event {"op":"Died"}, which no specification accepts.
// Exceptions of an operation are events with res = "throw".
inline int run(const char *script, const char *trace, int seconds,
               const std::function<void(const std::vector<Line> &, Out &)> &exec) {
  std::ifstream in(script);
  if (!in) { perror(script); return 64; }
  FILE *out = fopen(trace, "w");
  if (!out) { perror(trace); return 64; }
  std::string l, id;
  std::vector<Line> lines;
  while (std::getline(in, l)) {
    std::istringstream ss(l);
    Line line;
    std::string w;
    while (ss >> w) line.t.push_back(w);
    if (line.t.empty() || line.t[0][0] == '#') continue;
    if (line.t[0] == "scenario") { id = line.t[1]; lines.clear(); continue; }
    if (line.t[0] != "end") { lines.push_back(line); continue; }
    int p[2];
    if (pipe(p)) { perror("pipe"); return 64; }
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      struct rlimit rl = {3ul << 30, 3ul << 30};
#ifndef VERIF_SANITIZE
      setrlimit(RLIMIT_AS, &rl);
#endif
      struct rlimit nc = {0, 0};
      setrlimit(RLIMIT_CORE, &nc);
      alarm(seconds);
      Out o{fdopen(p[1], "w")};
      exec(lines, o);
      fflush(o.f);
      _exit(0);
    }
    close(p[1]);
    std::string buf;
    char tmp[65536];
    ssize_t k;
    while ((k = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, k);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 64) { fprintf(stderr, "script error in %s\n", id.c_str()); return 64; }
    fprintf(out, "{\"id\":%s,\"ev\":[", str(id).c_str());
    bool first = true;
    size_t a = 0;
    while (a < buf.size()) {
      size_t b = buf.find('\n', a);
      if (b == std::string::npos) break;   // an incomplete last line: the process died while writing
      if (!first) fputc(',', out);
      first = false;
      fwrite(buf.data() + a, 1, b - a, out);
      a = b + 1;
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      Obj o;
      o.S("op", "Died").S("how", WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : strsignal(WTERMSIG(st)))
                                                 : "exit " + std::to_string(WEXITSTATUS(st)));
      fprintf(out, "%s%s", first ? "" : ",", o.done().c_str());
    }
    fprintf(out, "]}\n");
  }
  fclose(out);
  return 0;
}
}  // namespace v
#endif
