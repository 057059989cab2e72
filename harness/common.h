// Reference (specification) arithmetic, independent of the code under test.
#pragma once
#include "vf.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <list>
#include <complex>
#include "global.h"
#include "vector.h"
struct V3 { double x, y, z; V3(double a, double b, double c) : x(a), y(b), z(c) {} V3() : x(0), y(0), z(0) {} V3(const Vector &v) : x(v.x), y(v.y), z(v.z) {}
  Vector v() const { return Vector(x, y, z); } };
static inline V3 add(V3 a, V3 b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
static inline V3 sub(V3 a, V3 b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
static inline V3 mul(V3 a, double s) { return V3(a.x * s, a.y * s, a.z * s); }
static inline double dot3(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline V3 cross3(V3 a, V3 b) { return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static inline double len3(V3 a) { return std::sqrt(dot3(a, a)); }
static inline void nm(char *b, const char *p, const char *s) { strcpy(b, p); strcpy(b + strlen(p), s); }
static inline V3 real3(const char *n) { char b[64]; V3 r; nm(b, n, ".x"); r.x = real(b); nm(b, n, ".y"); r.y = real(b); nm(b, n, ".z"); r.z = real(b); return r; }
static inline V3 real3s(const char *n, double lo, double hi) { char b[64]; V3 r; nm(b, n, ".x"); r.x = vf_real(b, lo, hi); nm(b, n, ".y"); r.y = vf_real(b, lo, hi); nm(b, n, ".z"); r.z = vf_real(b, lo, hi); return r; }
static inline void EQV3(const char *id, V3 a, V3 b, double s = 0.0) { char c[96];
  nm(c, id, ".x"); vf_check_eq(c, a.x, b.x, s); nm(c, id, ".y"); vf_check_eq(c, a.y, b.y, s); nm(c, id, ".z"); vf_check_eq(c, a.z, b.z, s); }
static inline void OBS3(const char *id, V3 a) { char c[96];
  nm(c, id, ".x"); vf_observe(c, a.x); nm(c, id, ".y"); vf_observe(c, a.y); nm(c, id, ".z"); vf_observe(c, a.z); }
// orthonormal right-handed frames from a rational (Cayley) parametrisation: covers every rotation but half turns
struct Frame { V3 a, b, c; };
static inline Frame frame(const char *n) { V3 q = real3s(n, -1.0, 1.0); double x = q.x, y = q.y, z = q.z, d = 1.0 + x * x + y * y + z * z;
  Frame f; f.a = V3((1 + x * x - y * y - z * z) / d, 2 * (x * y + z) / d, 2 * (x * z - y) / d);
  f.b = V3(2 * (x * y - z) / d, (1 - x * x + y * y - z * z) / d, 2 * (y * z + x) / d);
  f.c = V3(2 * (x * z + y) / d, 2 * (y * z - x) / d, (1 - x * x - y * y + z * z) / d); return f; }
#define C0 299792458.0
