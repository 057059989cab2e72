// Harness interface: symbolic under the executor, concrete (values of a solver model) when compiled natively.
#pragma once
#include <cstring>
#include <cmath>
#include <vector>
extern "C" {
double vf_real(const char *name, double lo, double hi);     // arbitrary real; lo,hi only seed the first witness
int vf_int(const char *name, int lo, int hi);               // arbitrary integer of the range
int vf_choice(const char *name, int lo, int hi);            // integer of the range, one path per value
void vf_assume_b(bool c);
void vf_check_b(const char *id, bool c);
void vf_check_eq(const char *id, double a, double b, double scale);
void vf_check_int(const char *id, long a, long b);
void vf_check_le(const char *id, double a, double b, double scale);   // a <= b
void vf_check_tol(const char *id, double a, double b, double tol);   // |a - b| <= tol
void vf_rounding(int on);                                            // every floating point operation gets an arbitrary rounding error
void vf_round(int bits);                                             // roots of numbers become rationals of this many bits
double vf_fn(const char *name, int n, const double *args);  // value of an arbitrary function
void vf_reach(const char *id);
void vf_observe(const char *name, double v);
void vf_observe_i(const char *name, long v);
int vf_symbolic(void);
void vf_fail(const char *id);
void vf_end(void);
int vf_decide(bool c);
void vf_note(const char *s);
double vf_diff(double v, double x);
int vf_patch(void *obj, int size, const int *from, const int *to, int n);   // replaces stored integers; number of replacements
}
static inline double real(const char *n) { return vf_real(n, -2.0, 2.0); }
static inline double realp(const char *n) { double r = vf_real(n, 0.3, 2.0); vf_assume_b(r > 0.0); return r; }
#define ASSUME(c) vf_assume_b(c)
#define CHECK(id, c) vf_check_b(id, c)
#define EQ(id, a, b) vf_check_eq(id, a, b, 0.0)
#define EQS(id, a, b, s) vf_check_eq(id, a, b, s)
#define EQI(id, a, b) vf_check_int(id, a, b)
#ifdef VF_SYM
#define HARNESS(n) extern "C" void n()
#else
struct VfReg { VfReg(const char *n, void (*f)()); };
#define HARNESS(n) extern "C" void n(); static VfReg reg_##n(#n, n); extern "C" void n()
#endif
// derivative of f at x: symbolic differentiation of the computed term, natively a central difference
template<class F> static double DERIV(F f, double x) {
  if (vf_symbolic()) return vf_diff(f(x), x);
  double h = 1e-4 * (std::fabs(x) > 1.0 ? std::fabs(x) : 1.0);
  return (8.0 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12.0 * h);
}
extern "C" void vf_check_near(const char *id, double a, double b, double scale, double tol);
#define NEAR(id, a, b, s, t) vf_check_near(id, a, b, s, t)
