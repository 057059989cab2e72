// construction of particles in an arbitrary state through the documented buffer formats
#pragma once
#include "common.h"
#include "particle.h"
static inline bool rel(double a, double b, double t) { return a > b * (1 - t) && a < b * (1 + t); }
static inline void check_constants() {
  CHECK("const-c", rel(SpeedOfLight, 299792458.0, 1e-9)); CHECK("const-e", rel(ElementaryCharge, 1.602176634e-19, 1e-6)); CHECK("const-mec2", rel(mecsquared, 510998.95, 1e-6));
  CHECK("const-eps0", rel(EpsNull, 8.8541878128e-12, 1e-6)); CHECK("const-invmass", rel(InvRestMass, 1.602176634e-19 / 9.1093837015e-31, 1e-6)); CHECK("const-pi", rel(Pi, 3.14159265358979, 1e-12));
  CHECK("const-mu0", rel(MuNull, 1.25663706e-6, 1e-6));
}
// field returning arbitrary values, a fresh one for every call, and recording where it was evaluated
struct ProbeField : public GeneralField {
  int n; double t[8]; V3 x[8]; V3 e[8], b[8]; int mode;   // mode 1: no electric field, 2: E + v x B = 0 (v given), 3: no field
  V3 v, sp, pp[8], tau[8]; double sg, qmt2;            // mode 4/5: fields parametrised by the kicked momentum pp and the rotation vector tau (a bijection for charged particles)
  ProbeField() : n(0), mode(0) {}
  bool is_external() override { return true; }
  ElMagField Field(double tt, Vector X) override {
    int k = n < 7 ? n : 7; n++;
    t[k] = tt; x[k] = X;
    char nb[16]; strcpy(nb, "B0"); nb[1] = '0' + k; char ne[16]; strcpy(ne, "E0"); ne[1] = '0' + k;
    if (mode >= 4) {
      strcpy(nb, "T0"); nb[1] = '0' + k; strcpy(ne, "K0"); ne[1] = '0' + k;
      tau[k] = real3(nb);
      b[k] = mul(tau[k], 1.0 / qmt2);
      if (mode >= 6) { e[k] = mode == 6 ? V3() : mul(cross3(v, b[k]), -1.0); return ElMagField(e[k].v(), b[k].v()); }   // 6: no electric field, 7: crossed fields
      pp[k] = real3(ne); V3 d = sub(pp[k], sp); double f = SpeedOfLight / qmt2;
      // mode 4 (full step): pp = sp + 2 qmt2 E/c + sp/sg x tau     mode 5 (start): pp = sp + qmt2 E/c
      if (mode == 4) { d = sub(d, cross3(mul(sp, 1.0 / sg), tau[k])); f *= 0.5; }
      e[k] = mul(d, f);
      return ElMagField(e[k].v(), b[k].v());
    }
    b[k] = mode == 3 ? V3() : real3s(nb, -3.0, 3.0);
    e[k] = mode == 0 ? real3s(ne, -2e9, 2e9) : mode == 2 ? mul(cross3(v, b[k]), -1.0) : V3();
    return ElMagField(e[k].v(), b[k].v());
  }
};
struct PState { double q, m, dt, qm, qmt2, g, t; V3 p, X, P, A; };
static inline void fill_head(double *b, const PState &s) { b[0] = s.q; b[1] = s.m; b[2] = s.dt; b[3] = s.qm; b[4] = s.qmt2; b[5] = s.p.x; b[6] = s.p.y; b[7] = s.p.z; b[8] = s.g; }
static inline void fill_point(double *b, double t, V3 X, V3 P, V3 A) { b[0] = t; b[1] = X.x; b[2] = X.y; b[3] = X.z; b[4] = P.x; b[5] = P.y; b[6] = P.z; b[7] = A.x; b[8] = A.y; b[9] = A.z; }
// trajectory of n symbolic points; times strictly increasing if inc
static inline ChargedParticle *traj_particle(double charge, double mass, int n, double *t, V3 *X, V3 *P, V3 *A) {
  std::vector<double> b(9 + 10 * n); PState s; s.q = charge; s.m = mass; s.dt = 0; s.qm = charge / mass * InvRestMass; s.qmt2 = 0; s.p = V3(); s.g = 1.0; fill_head(&b[0], s);
  for (int i = 0; i < n; i++) fill_point(&b[9 + 10 * i], t[i], X[i], P[i], A[i]);
  return new ChargedParticle(&b[0], n, 0);
}
static inline const char *idx(char *b, const char *n, int i) { strcpy(b, n); int l = strlen(b); b[l] = '0' + i; b[l + 1] = 0; return b; }
