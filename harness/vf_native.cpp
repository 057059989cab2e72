// Native implementation of the harness interface: replays one solver model against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
static std::map<std::string, double> vals; static std::map<std::string, int> used; static int nfail = 0;
// variations of a model: other values of the real inputs within their declared ranges (the choices stay)
static unsigned long jseed = 0; static double jprob = 1.0, eqtol = 1e-7;
static double rnd() { jseed = jseed * 6364136223846793005UL + 1442695040888963407UL; return (double)(jseed >> 11) / 9007199254740992.0; }
static std::string uniq(const char *n) { int k = used[n]++; if (!k) return n; char b[32]; snprintf(b, 32, "#%d", k); return std::string(n) + b; }
static void done(const char *why) { printf("VF-END %s fails=%d\n", why, nfail); fflush(stdout); _Exit(nfail ? 3 : 0); }
static std::map<std::string, void (*)()> &tab() { static std::map<std::string, void (*)()> t; return t; }
VfReg::VfReg(const char *n, void (*f)()) { tab()[n] = f; }
extern "C" {
void vf_check_near(const char *id, double a, double b, double scale, double tol) {
  double s = std::fabs(a); if (std::fabs(b) > s) s = std::fabs(b); if (scale > s) s = scale;
  bool ok = std::fabs(a - b) <= tol * s || a == b;
  if (!ok) { nfail++; printf("VF-FAIL %s %.17g %.17g\n", id, a, b); } else printf("VF-OK %s\n", id); fflush(stdout); }
double vf_real(const char *name, double lo, double hi) { std::string n = uniq(name); auto i = vals.find(n); double v = i == vals.end() ? 0.5 * (lo + hi) : i->second;
  if (jseed) { double u = rnd(), r = rnd(); if (r < jprob) { v = lo + (hi - lo) * u; } printf("VF-VAL %s %.17g\n", n.c_str(), v); } return v; }
int vf_int(const char *name, int lo, int hi) { std::string n = uniq(name); auto i = vals.find(n); return i == vals.end() ? lo : (int)i->second; }
int vf_choice(const char *name, int lo, int hi) { return vf_int(name, lo, hi); }
void vf_assume_b(bool c) { if (!c) { printf("VF-ASSUME violated\n"); if (getenv("VF_LAX")) return; done("assume"); } }
void vf_check_b(const char *id, bool c) { if (!c) { nfail++; printf("VF-FAIL %s\n", id); } else printf("VF-OK %s\n", id); fflush(stdout); }
void vf_check_eq(const char *id, double a, double b, double scale) {
  double s = std::fabs(a); if (std::fabs(b) > s) s = std::fabs(b); if (scale > s) s = scale;
  bool ok = std::fabs(a - b) <= eqtol * s || a == b;
  if (!ok) { nfail++; printf("VF-FAIL %s %.17g %.17g\n", id, a, b); } else printf("VF-OK %s\n", id); fflush(stdout); }
void vf_check_int(const char *id, long a, long b) { if (a != b) { nfail++; printf("VF-FAIL %s %ld %ld\n", id, a, b); } else printf("VF-OK %s\n", id); fflush(stdout); }
void vf_check_le(const char *id, double a, double b, double scale) {
  double s = std::fabs(a); if (std::fabs(b) > s) s = std::fabs(b); if (scale > s) s = scale;
  bool ok = a <= b + 1e-9 * s;
  if (!ok) { nfail++; printf("VF-FAIL %s %.17g > %.17g\n", id, a, b); } else printf("VF-OK %s\n", id); fflush(stdout); }
void vf_check_tol(const char *id, double a, double b, double tol) { if (!(std::fabs(a - b) <= tol)) { nfail++; printf("VF-FAIL %s %.17g %.17g\n", id, a, b); } else printf("VF-OK %s\n", id); fflush(stdout); }
void vf_round(int) {}
void vf_rounding(int) {}
double vf_fn(const char *name, int n, const double *a) {
  double s = 0; for (int i = 0; i < n; i++) s += (i * 0.37 + 0.61) * a[i];
  std::string nm = std::string("u:") + name;
  double h = 0; for (char c : nm) h = std::fmod(h * 31.0 + (unsigned char)c, 997.0);
  return std::sin(1.3 * s + h) * (1.0 + 0.25 * std::cos(0.7 * s - h)) + 0.1 * h / 997.0; }
void vf_reach(const char *id) { printf("VF-REACH %s\n", id); }
void vf_observe(const char *name, double v) { printf("VF-OBS %s %.17g\n", name, v); }
void vf_observe_i(const char *name, long v) { printf("VF-OBS %s %ld\n", name, v); }
int vf_symbolic(void) { return 0; }
void vf_fail(const char *id) { vf_check_b(id, false); }
void vf_end(void) { done("end"); }
int vf_decide(bool c) { return c; }
void vf_note(const char *) {}
double vf_diff(double, double) { return 0; }
int vf_patch(void *obj, int size, const int *from, const int *to, int n) { int c = 0; for (int a = 0; a + 4 <= size; a += 4) { int v; memcpy(&v, (char *)obj + a, 4); for (int k = 0; k < n; k++) if (v == from[k]) { memcpy((char *)obj + a, &to[k], 4); c++; break; } } return c; }
}
int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 4096);
  if (const char *j = getenv("VF_JITTER")) { unsigned long k = strtoul(j, 0, 10); jseed = k * 7919 + 12345; for (int i = 0; i < 5; i++) rnd(); jprob = k % 3 == 0 ? 1.0 : k % 3 == 1 ? 0.6 : 0.25; eqtol = 1e-5; }
  if (argc > 1) { FILE *f = fopen(argv[1], "r"); char n[512]; double v; while (f && fscanf(f, "%511s %lf", n, &v) == 2) vals[n] = v; if (f) fclose(f); }
  if (argc < 3 || !tab().count(argv[2])) { printf("no entry\n"); return 9; }
  try { tab()[argv[2]](); } catch (...) { printf("VF-FAIL uncaught-exception\n"); nfail++; }
  done("end");
}
