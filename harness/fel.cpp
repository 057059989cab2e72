#include "xmlkit.h"
#include "ptc.h"
#include "beam.h"
#include "bunch.h"
#include "fel1d.h"
#ifndef VF_DEEP
#define DEEP 0
#else
#define DEEP 1
#endif
static double sq(double a) { return a * a; }
static struct { Frame f; double dt, ds, fp, fe, mix, E0, lam, tau, ts, zR, w0, zw; V3 head; int N; } g;
double vf_input(const char *n) {
  n += 3; if (!strcmp(n, "px")) return g.head.x; if (!strcmp(n, "py")) return g.head.y; if (!strcmp(n, "pz")) return g.head.z;
  V3 d = mul(g.f.c, g.fp), e = mul(add(g.f.a, mul(g.f.c, g.mix)), g.fe); if (!strcmp(n, "dx")) return d.x; if (!strcmp(n, "dy")) return d.y; if (!strcmp(n, "dz")) return d.z; if (!strcmp(n, "ex")) return e.x; if (!strcmp(n, "ey")) return e.y; if (!strcmp(n, "ez")) return e.z;
  if (!strcmp(n, "E0")) return g.E0; if (!strcmp(n, "lam")) return g.lam; if (!strcmp(n, "tau")) return g.tau; if (!strcmp(n, "ts")) return g.ts; if (!strcmp(n, "zR")) return g.zR; if (!strcmp(n, "w0")) return g.w0; if (!strcmp(n, "zw")) return g.zw; vf_fail("unknown-input"); return 0; }
// any propagation direction (frame), polarisation given with any length and any component along the propagation
static FEL_1D *make(int N, bool seed, int logstep, bool plain) {
  g.N = N; g.dt = vf_real("dt", 0.5e-12, 2e-12); ASSUME(g.dt > 0.0); g.ds = g.dt * SpeedOfLight; g.head = real3("head"); if (plain) { g.f.a = V3(1, 0, 0); g.f.b = V3(0, 1, 0); g.f.c = V3(0, 0, 1); g.fp = 1; g.fe = 1; g.mix = 0; } else { g.f = frame("rot"); g.fp = realp("plen"); g.fe = realp("elen"); g.mix = real("mix"); }
  g.E0 = real("E0"); g.lam = vf_real("lambda", 1e-3, 3e-3); ASSUME(g.lam > 0.0); g.tau = vf_real("tau", 1e-12, 3e-12); ASSUME(g.tau > 0.0); g.ts = vf_real("tstart", 0, 4e-12); g.zR = realp("zR"); g.w0 = realp("w0"); g.zw = real("zw");
  Txt t; t << "<fel1d N=\"" << N << "\" >"; xyz(t, "position", "p"); xyz(t, "prop", "d"); xyz(t, "pol", "e"); if (logstep >= 0) { t << "<log file=\"fel.h5\" "; if (logstep > 0) t << "step=\"" << logstep << "\" "; t << "/>"; } t << "<mode zR=\"in_zR\" w0=\"in_w0\" zwaist=\"in_zw\" />"; if (seed) t << "<seed E0=\"in_E0\" lambda=\"in_lam\" tau=\"in_tau\" tstart=\"in_ts\" />"; t << "</fel1d>";
  pugi::xml_document *d = xdoc(t.b); InputParser *p = new InputParser(d->first_child()); return new FEL_1D(g.dt, d->first_child(), p); }
static double seedv(int i) { double t = i * g.dt - g.ts; return g.E0 * std::cos(2.0 * Pi * SpeedOfLight / g.lam * t) * std::exp(-0.5 * sq(t / g.tau)); }
// place d cells behind the head at the given number of steps, anywhere transversely
static Vector at(double d, int steps, double u, double v) { return add(add(add(g.head, mul(g.f.c, (steps - d) * g.ds)), mul(g.f.a, u)), mul(g.f.b, v)).v(); }
static ElMagField query(FEL_1D *f, int i, int steps) { return f->Field(steps * g.dt, at(i, steps, 0, 0)); }
static void eqE(const char *id, ElMagField f, double e) { char c[64]; nm(c, id, ".E"); EQV3(c, V3(f.E()), mul(g.f.a, e), 1.0); nm(c, id, ".B"); EQV3(c, V3(f.B()), mul(g.f.b, e / SpeedOfLight), 1e-6); }
HARNESS(h_field) {   // a place is served by its cell, whatever the transverse position; nothing outside, nothing at other times
  int N = vf_choice("N", 2, DEEP ? 5 : 3); FEL_1D *f = make(N, true, -1, false); CHECK("interaction", !f->is_external()); double d = vf_real("d", -1.5, N + 0.5), u = real("u"), v = real("v"), w = vf_real("w", -0.6, 0.6), dd = d; ASSUME(d > -50.0 && d < 50.0); for (int k = -1; k <= N; k++) ASSUME(d != k + 0.5); ASSUME(w != 0.25 && w != -0.25);
  bool th = false; ElMagField r; try { r = f->Field(w * g.dt, at(d, 0, u, v)); } catch (IOexception &e) { th = true; }
  bool ok = vf_decide(w < 0.25) && vf_decide(w > -0.25) && vf_decide(dd > -0.5) && vf_decide(dd < N - 0.5); CHECK("accepted", th == !ok); if (ok) { int i = 0; for (int k = 1; k < N; k++) if (vf_decide(dd > k - 0.5)) i = k; eqE("cell", r, seedv(i)); vf_reach("cell"); } else vf_reach("rejected");
}
static Beam *nobeam(int step) { Beam *b = new Beam(); b->Add(new Bunch()); b->setTimeStep(g.dt); b->setNOTS(step); return b; }
HARNESS(h_carry) {   // without beam: cells not reached by what the head cells hold travel along unchanged, ahead of the head there is nothing to move in
  int N = vf_choice("N", 2, DEEP ? 8 : 6), n = vf_choice("steps", 1, 3); FEL_1D *f = make(N, true, -1, true); Beam *b = nobeam(0); double h[4][8]; for (int i = 0; i < N; i++) h[0][i] = V3(query(f, i, 0).E()).x; f->init(b); for (int k = 1; k <= n; k++) { if (k > 1) { b->setNOTS(k - 1); f->step(b); } for (int i = 0; i < N; i++) h[k][i] = V3(query(f, i, k).E()).x; if (k > 1) for (int i = 1; i + 1 < N; i++) EQS("wave", h[k][i + 1], h[k - 1][i - 1] + h[k - 1][i + 1] - h[k - 2][i - 1], 1.0); }
  eqE("head", query(f, 0, n), 0.0); for (int i = 2 * n; i < N; i++) eqE("carried", query(f, i, n), seedv(i));
  int m = vf_choice("misfit", 0, 2); bool th = false; if (m) { b->setNOTS(m == 1 ? n + 1 : n - 1); try { f->step(b); } catch (IOexception &e) { th = true; } CHECK("step-mismatch", th); eqE("untouched", query(f, N - 1, n), N - 1 >= 2 * n ? seedv(N - 1) : V3(query(f, N - 1, n).E()).x); } vf_reach("carry");
}
HARNESS(h_reject) {
  FEL_1D *f = make(3, false, -1, true); double s = vf_real("s", 0.5, 1.5); ASSUME(s > 0.0); Beam *b = nobeam(0); b->setTimeStep(g.dt * s); bool th = false; try { f->init(b); } catch (IOexception &e) { th = true; } if (vf_decide(s > 1.0 + 2e-9) || vf_decide(s < 1.0 - 2e-9)) CHECK("step-rejected", th); if (vf_decide(s == 1.0)) CHECK("step-accepted", !th);
  for (int n = -1; n < 3; n++) { bool t2 = false; FEL_1D *q = 0; try { q = new FEL_1D(g.dt, n); } catch (std::exception &e) { t2 = true; } CHECK("grid-size", t2 == (n < 2)); } vf_reach("reject");
}
HARNESS(h_default) {   // the plain constructor: empty field along z, polarised along x
  int N = vf_choice("N", 2, 4); g.dt = vf_real("dt", 0.5e-12, 2e-12); ASSUME(g.dt > 0.0); g.ds = g.dt * SpeedOfLight; g.head = V3(); g.f.a = V3(1, 0, 0); g.f.b = V3(0, 1, 0); g.f.c = V3(0, 0, 1); FEL_1D f(g.dt, N); for (int i = 0; i < N; i++) eqE("empty", query(&f, i, 0), 0.0);
  V3 X = real3("X"), P = real3("P"); double q = real("q"); Beam *b = new Beam(); Bunch *k = new Bunch(); double t = g.dt; V3 x0(X.x, X.y, g.ds * 1.0), a = real3s("A", -1e9, 1e9); ChargedParticle *p = traj_particle(q, 1.0, 1, &t, &x0, &P, &a); k->Add(p); b->Add(k); b->setTimeStep(g.dt); f.init(nobeam(0)->getNOTS() == 0 ? b : b); x0.z = 0; b->setNOTS(1); f.step(b);
  for (int i = 0; i + 1 < N; i++) { ElMagField r = query(&f, i + 1, 2); EQ("Ey", r.E().y, 0.0); EQ("Ez", r.E().z, 0.0); EQ("Bx", r.B().x, 0.0); EQS("By", r.B().y * SpeedOfLight, r.E().x, 1.0); } vf_reach("default");
}
// what a particle adds to cell i
static double drive(int i, double q, V3 P, V3 A, double d, int step) {
  if (i < 1 || i >= g.N - 1) return 0.0; double z = step * g.ds, w2 = sq(g.w0) * (1.0 + sq((z - g.zw) / g.zR)), area = 0.5 * Pi * w2, gamma = std::sqrt(1.0 + dot3(P, P)); return g.dt * q * ElementaryCharge * MuNull * SpeedOfLight * SpeedOfLight * dot3(A, g.f.a) / gamma / area * std::exp(-sq((d - i) * g.ds) / (2.0 * sq(2.0 * g.ds))) / (2.0 * std::sqrt(2.0 * Pi)); }
HARNESS(h_drive) {   // every particle of every bunch contributes in proportion to charge and transverse acceleration, as a pulse of two cells width around its own position
  int N = vf_choice("N", 2, 4), np = vf_choice("particles", 0, 2), split = np == 2 ? vf_choice("bunches", 0, 1) : 0; FEL_1D *f = make(N, false, -1, true); Beam *b = new Beam(); Bunch *k[2] = {new Bunch(), new Bunch()}; b->Add(k[0]); b->Add(k[1]); b->setTimeStep(g.dt); b->setNOTS(1); f->init(b);
  double q[2], d[2]; V3 P[2], A[2]; char n[8]; for (int i = 0; i < np; i++) { q[i] = real(idx(n, "q", i)); d[i] = vf_real(idx(n, "d", i), 0.05, N - 0.05); ASSUME(d[i] > 0.0 && d[i] < N); for (int c = 0; c <= N; c++) ASSUME(d[i] != c + 0.5); P[i] = real3(idx(n, "P", i)); A[i] = real3s(idx(n, "A", i), -1e9, 1e9); double w = vf_real(idx(n, "tw", i), -0.2, 0.2); ASSUME(w > -0.25 && w < 0.25); double t = g.dt * (1.0 + w); V3 X = V3(at(d[i], 1, real(idx(n, "u", i)), real(idx(n, "v", i)))); k[split && i]->Add(traj_particle(q[i], 1.0, 1, &t, &X, &P[i], &A[i])); }
  f->step(b); double e[6]; for (int i = 0; i < N; i++) { e[i] = 0; for (int j = 0; j < np; j++) e[i] += drive(i - 1 < 1 ? -1 : i - 1, q[j], P[j], A[j], d[j], 1); eqE("driven", query(f, i, 2), e[i]); }
  for (int j = 0; j < 2; j++) for (int i = 0; i < k[j]->getNOP(); i++) CHECK("beam-kept", k[j]->getParticle(i)->getNP() == 1); vf_reach("drive");
}
HARNESS(h_wave) {   // afterwards the field obeys the discrete wave equation, including the contribution to the field before the step
  int N = vf_choice("N", 4, DEEP ? 7 : 5); FEL_1D *f = make(N, true, -1, true); Beam *b = new Beam(); Bunch *k = new Bunch(); b->Add(k); b->setTimeStep(g.dt); b->setNOTS(0); f->init(b); double q = real("q"), d = 1.25; V3 P = real3("P"), A = real3s("A", -1e9, 1e9), X = V3(at(d, 1, 0, 0)); double t = g.dt; k->Add(traj_particle(q, 1.0, 1, &t, &X, &P, &A));
  double e1[8], e2[8]; for (int i = 0; i < N; i++) e1[i] = V3(query(f, i, 1).E()).x; b->setNOTS(1); f->step(b); for (int i = 0; i < N; i++) e2[i] = V3(query(f, i, 2).E()).x; Beam *z = nobeam(2); f->step(z);
  for (int i = 2; i + 1 < N; i++) EQS("wave", V3(query(f, i + 1, 3).E()).x, e2[i - 1] + e2[i + 1] - (e1[i - 1] + drive(i - 1, q, P, A, d, 1)), 1.0); vf_reach("wave");
}
HARNESS(h_outside) {   // particles outside of the grid or at another time are rejected, nothing is written
  int N = vf_choice("N", 2, 3); FEL_1D *f = make(N, false, -1, true); Beam *b = new Beam(); Bunch *k = new Bunch(); b->Add(k); b->setTimeStep(g.dt); b->setNOTS(1); f->init(b); double d = vf_real("d", -2, N + 2), w = vf_real("w", -1, 1), t = g.dt * (1 + w); ASSUME(d > -1000.0 && d < 1000.0); V3 P = real3("P"), A = real3("A"), X = V3(at(d, 1, real("u"), real("v"))); for (int c = -1; c <= N; c++) ASSUME(d != c + 0.5); ASSUME(d != 0.0 && d != N && w != 0.25 && w != -0.25); k->Add(traj_particle(1.0, 1.0, 1, &t, &X, &P, &A)); bool th = false; try { f->step(b); } catch (IOexception &e) { th = true; }
  bool ok = vf_decide(d > 0.0) && vf_decide(d < N) && vf_decide(w < 0.25) && vf_decide(w > -0.25); CHECK("outside", th == !ok); vf_reach(ok ? "in" : "out");
}
HARNESS(h_file) {   // the field is written as it was at the requested steps
  fio_reset(); int N = vf_choice("N", 2, 3), st = vf_choice("step", -1, 2), n = vf_choice("steps", 1, 4); FEL_1D *f = make(N, true, st, true); Beam *b = nobeam(0); f->init(b); double rec[5][4]; int nr = 0; for (int i = 0; i < N; i++) rec[0][i] = seedv(i); nr = 1;
  for (int s = 1; s < n; s++) { b->setNOTS(s); f->step(b); if ((s + 1) % (st > 0 ? st : 1) == 0) { for (int i = 0; i < N; i++) rec[nr][i] = V3(query(f, i, s + 1).E()).x; nr++; } } f->write_output(); if (st < 0) { EQI("nofile", fio_file("fel.h5"), -1); vf_reach("nofile"); return; }
  FioSet *s = fio_set("fel.h5", "InteractionField"), *j = fio_set("fel.h5", "CurrentDensity"); CHECK("file", s && j && s->written && j->written); if (!s || !j) return; EQI("rank", s->rank, 2); EQI("rows", s->dim[0], nr); EQI("cols", s->dim[1], N); EQI("jrows", j->dim[0], nr); EQI("jcols", j->dim[1], N); if (s->dim[0] != nr || s->dim[1] != N) return; for (int r = 0; r < nr; r++) for (int i = 0; i < N; i++) { EQS("E", s->d[r * N + i], rec[r][i], 1.0); EQ("J", j->d[r * N + i], 0.0); }
  FioAttr *a = fio_attr(s, "N_field"); CHECK("N_field", a && a->iv == N); a = fio_attr(s, "N_steps"); CHECK("N_steps", a && a->iv == nr); a = fio_attr(s, "dt"); if (a) EQ("dt", a->dv, g.dt); a = fio_attr(s, "origin.x"); if (a) EQ("origin", a->dv, g.head.x); vf_reach("file");
}
