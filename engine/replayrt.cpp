// Native runtime: the same harness, compiled with the real compiler, run on candidate
// input vectors.  Each candidate is run in a child process.
// Input file: one candidate per line, "name=value name=value ...".
// Output: per candidate one line "<status> <label> ..." where status is
//   ok | cut | fail | crash, and (with REPLAY_OBS=1) lines "obs label value".
#include "symrt.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>

static std::map<std::string, double> vals;
static FILE *res;
static double tol = 1e-6, abstol = 1e-9;
static bool obs = false;
static const char *only = nullptr;

static void failed(const char *label, double a, double b) {
  if (only && std::strcmp(only, label) != 0) return;
  fprintf(res, "fail %s %.17g %.17g\n", label, a, b);
  fflush(res);
  _exit(1);
}
extern "C" {
double symrt_var(const char *name) {
  auto it = vals.find(name);
  if (it != vals.end()) return it->second;
  return 0.5;
}
double symrt_given(double x) { return x; }
int symrt_symbolic(void) { return 0; }
int symrt_same(double a, double b) { return a == b; }
int symrt_branch(const char *name) { return symrt_var(name) < 0; }
void symrt_cut(void) { fprintf(res, "cut\n"); fflush(res); _exit(2); }
void symrt_assume(int c) { if (!c) symrt_cut(); }
void symrt_check(const char *label, int c) { if (!c) failed(label, 0, 0); }
void symrt_check_eq(const char *label, double a, double b) {
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  double d = std::fabs(a - b), s = std::fmax(std::fabs(a), std::fabs(b));
  if (std::isfinite(d) && std::isfinite(s) && d <= tol * s + abstol) return;
  failed(label, a, b);
}
void symrt_assume_rel(int p, double a, double b) { symrt_assume(p == 0 ? a < b : p == 1 ? a <= b : p == 2 ? a == b : a != b); }
void symrt_check_rel(const char *label, int p, double a, double b) {
  double s = std::fmax(std::fabs(a), std::fabs(b));
  double e = tol * s + abstol;
  int ok;
  if (!std::isfinite(a) || !std::isfinite(b)) ok = p == 0 ? a < b : p == 1 ? a <= b : p == 2 ? a == b : a != b;
  else ok = p == 0 ? a < b + e : p == 1 ? a <= b + e : p == 2 ? std::fabs(a - b) <= e : 1;
  if (!ok) failed(label, a, b);
}
void symrt_observe(const char *label, double x) { if (obs) fprintf(res, "obs %s %.17g\n", label, x); }
void symrt_reach(const char *) {}
}
int main(int argc, char **argv) {
  if (argc < 2) return 90;
  obs = getenv("REPLAY_OBS") != nullptr;
  if (getenv("REPLAY_TOL")) tol = atof(getenv("REPLAY_TOL"));
  only = getenv("REPLAY_LABEL");
  bool stop = getenv("REPLAY_STOP") != nullptr;
  res = fdopen(dup(1), "w");
  if (!getenv("REPLAY_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) return 91; }
  std::ifstream f(argv[1]);
  std::string line;
  int any = 0;
  long n = 0;
  while (std::getline(f, line)) {
    vals.clear();
    std::istringstream ss(line);
    std::string kv;
    while (ss >> kv) { size_t e = kv.find('='); if (e != std::string::npos) vals[kv.substr(0, e)] = strtod(kv.c_str() + e + 1, nullptr); }
    fprintf(res, "case %ld\n", n++);
    fflush(res);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(20);
      try { harness(); }
      catch (const std::exception &e) { fprintf(res, "fail exception 0 0\n"); fflush(res); _exit(1); }
      fprintf(res, "ok\n");
      fflush(res);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) { fprintf(res, "crash %d\n", WTERMSIG(st)); fflush(res); any = 1; }
    else if (WEXITSTATUS(st) == 1) any = 1;
    if (any && stop) break;
  }
  return any;
}
