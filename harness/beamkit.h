#pragma once
#include "ptc.h"
#include "bunch.h"
#include "beam.h"
#include "logger.h"
#include "fakeio.h"
// ---------------------------------------------------------------- building blocks
static int S(int quick, int thorough) {
#ifdef VF_DEEP
  return thorough;
#else
  return vf_symbolic() ? quick : thorough;
#endif
}
static char NB[16];
static const char *pn(const char *a, int i) { strcpy(NB, a); int l = strlen(NB); NB[l] = '0' + i / 10; NB[l + 1] = '0' + i % 10; NB[l + 2] = 0; return NB; }
// particle with an arbitrary state, as it is in the middle of tracking (np points; hidden tracking state included)
static ChargedParticle *anyp(int id, int np, bool light = false) {
  char b[24]; double buf[9 + 40]; PState s; pn("q", id); s.q = vf_real(NB, -5, 5); pn("m", id); s.m = vf_real(NB, 0.5, 3); ASSUME(s.m > 0.0);
  pn("dt", id); s.dt = vf_real(NB, 0.5e-12, 2e-12); s.qm = s.q / s.m * InvRestMass; s.qmt2 = s.qm * 0.5 * s.dt; pn("u", id); strcpy(b, NB); s.p = real3(b); s.g = std::sqrt(1.0 + dot3(s.p, s.p)); fill_head(buf, s);
  for (int i = 0; i < np; i++) { pn("t", id); strcpy(b, NB); int l = strlen(b); b[l] = 'a' + i; b[l + 1] = 0; double t = vf_real(b, i * 1e-12, (i + 0.5) * 1e-12); V3 X, P, A;
    b[0] = 'x'; X = real3(b); b[0] = 'p'; P = real3(b); b[0] = 'a'; A = light ? V3() : real3s(b, -1e9, 1e9); fill_point(buf + 9 + 10 * i, t, X, P, A); }
  return new ChargedParticle(buf, np, 0);
}
// independent copy of the complete state
static ChargedParticle *clone(ChargedParticle *p) { std::vector<double> b(p->TrajBufSize() + 1); p->serializeTraj(&b[0]); return new ChargedParticle(&b[0], p->getNP(), 0); }
// a field that is an arbitrary function of time and place
struct FnField : public GeneralField { int n; bool mag; double last[4]; FnField(bool m = true) : n(0), mag(m) {} bool is_external() override { return true; }
  ElMagField Field(double t, Vector X) override { n++; double a[4] = {t, X.x, X.y, X.z}; return ElMagField(Vector(vf_fn("Ex", 4, a), vf_fn("Ey", 4, a), vf_fn("Ez", 4, a)), mag ? Vector(vf_fn("Bx", 4, a), vf_fn("By", 4, a), vf_fn("Bz", 4, a)) : VectorZero); } };
static void same_current(const char *id, ChargedParticle *a, ChargedParticle *b) { char c[64];
  nm(c, id, ".t"); EQ(c, a->getTime(), b->getTime()); nm(c, id, ".X"); EQV3(c, V3(a->getPosition()), V3(b->getPosition())); nm(c, id, ".P"); EQV3(c, V3(a->getMomentum()), V3(b->getMomentum())); nm(c, id, ".A"); EQV3(c, V3(a->getAccel()), V3(b->getAccel())); }
static void same_traj(const char *id, ChargedParticle *a, ChargedParticle *b) { char c[64]; nm(c, id, ".n"); EQI(c, a->getNP(), b->getNP()); if (a->getNP() != b->getNP()) return;
  for (int i = 0; i < a->getNP(); i++) { nm(c, id, ".tt"); EQ(c, a->TrajTime(i), b->TrajTime(i)); nm(c, id, ".tX"); EQV3(c, V3(a->TrajPoint(i)), V3(b->TrajPoint(i))); nm(c, id, ".tP"); EQV3(c, V3(a->TrajMomentum(i)), V3(b->TrajMomentum(i))); nm(c, id, ".tA"); EQV3(c, V3(a->TrajAccel(i)), V3(b->TrajAccel(i))); } }
static void same_hidden(const char *id, ChargedParticle *a, ChargedParticle *b) { std::vector<double> x(a->TrajBufSize()), y(b->TrajBufSize()); a->serializeTraj(&x[0]); b->serializeTraj(&y[0]); char c[64]; nm(c, id, ".h"); for (int i = 0; i < 9; i++) EQ(c, x[i], y[i]); }
// beam of an arbitrary composition: NB bunches, 0..2 particles each
struct Comp { int nb, n[6], tot; ChargedParticle *p[20], *ref[20]; int bun[20]; Beam *beam; };
static Comp compose(int nbmax, int npmax, int np, bool light = false) {
  Comp c; c.nb = vf_choice("bunches", 0, nbmax); c.tot = 0; c.beam = new Beam(); char b[8];
  for (int k = 0; k < c.nb; k++) { c.n[k] = vf_choice(idx(b, "size", k), 0, npmax); Bunch *q = new Bunch();
    for (int i = 0; i < c.n[k]; i++) { c.p[c.tot] = anyp(c.tot, np, light); c.ref[c.tot] = clone(c.p[c.tot]); c.bun[c.tot] = k; q->Add(c.p[c.tot]); c.tot++; }
    c.beam->Add(q); }
  return c; }
