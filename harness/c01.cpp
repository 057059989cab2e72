#include "ptc.h"
static PState arbitrary(bool mom = true) {
  PState s; s.q = vf_real("charge", -5, 5); s.m = vf_real("mass", 0.5, 3); ASSUME(s.m > 0.0); s.dt = vf_real("dt", 0.5e-12, 2e-12); ASSUME(s.dt > 0.0);
  s.qm = s.q / s.m * InvRestMass; s.qmt2 = s.qm * 0.5 * s.dt; if (mom) { s.p = real3("p"); s.g = std::sqrt(1.0 + dot3(s.p, s.p)); }
  s.t = vf_real("t", -1e-10, 1e-10); s.X = real3("X"); s.P = real3("P"); s.A = real3("A"); return s;
}
static ChargedParticle *make(const PState &s) { double b[19]; fill_head(b, s); fill_point(b + 9, s.t, s.X, s.P, s.A); return new ChargedParticle(b, 1, 0); }
// momentum that the scheme will use for the next step, seen through the next displacement
static V3 step_beta(ChargedParticle *p, double dt) { int n = p->getNP(); return mul(sub(p->TrajPoint(n - 1), p->TrajPoint(n - 2)), 1.0 / (SpeedOfLight * dt)); }
struct Hidden { V3 p; double g, dt, qm, qmt2; };
static Hidden hidden(ChargedParticle *p) { std::vector<double> b(p->TrajBufSize()); p->serializeTraj(&b[0]); Hidden h; h.p = V3(b[5], b[6], b[7]); h.g = b[8]; h.dt = b[2]; h.qm = b[3]; h.qmt2 = b[4]; return h; }

// one step from an arbitrary state: displacement, momentum change, consistency of the new velocity
HARNESS(h_step) {
  check_constants();
  PState s = arbitrary(); ASSUME(s.q != 0.0); ChargedParticle *p = make(s); ProbeField f; f.mode = 4; f.sp = s.p; f.sg = s.g; f.qmt2 = s.qmt2;
  p->StepVay(&f);
  EQI("points", p->getNP(), 2); EQI("field-calls", f.n, 1);
  EQ("time", p->TrajTime(1), s.t + s.dt); EQV3("move", p->TrajPoint(1), add(s.X, mul(s.p, SpeedOfLight * s.dt / s.g)));
  EQ("field-time", f.t[0], s.t + s.dt); EQV3("field-place", f.x[0], p->TrajPoint(1));
  Hidden h = hidden(p);
  // p_new - p_old = (q/m) dt [E/c + (beta_old + beta_new)/2 x B]
  V3 bm = mul(add(mul(s.p, 1.0 / s.g), mul(h.p, 1.0 / h.g)), 0.5);
  V3 rhs = mul(add(mul(f.e[0], 1.0 / SpeedOfLight), cross3(bm, f.b[0])), s.qm * s.dt);
  EQV3("lorentz", sub(h.p, s.p), rhs, 1.0);
  EQ("gamma", h.g * h.g, 1.0 + dot3(h.p, h.p)); CHECK("gamma-positive", h.g > 0.0);
  EQ("dt-kept", h.dt, s.dt); EQ("qm-kept", h.qm, s.qm); EQ("qmt2-kept", h.qmt2, s.qmt2);
  OBS3("pnew", h.p); OBS3("X", p->TrajPoint(1)); vf_reach("step");
}
// the velocity of the following displacement is the updated one
HARNESS(h_two) {
  PState s = arbitrary(); ChargedParticle *p = make(s); ProbeField f; f.mode = vf_choice("mode", 0, 1) ? 1 : 0;
  p->StepVay(&f); Hidden h = hidden(p); p->StepVay(&f);
  EQV3("second-move", p->TrajPoint(2), add(p->TrajPoint(1), mul(h.p, SpeedOfLight * s.dt / h.g))); EQ("second-time", p->TrajTime(2), s.t + 2.0 * s.dt); EQI("points", p->getNP(), 3);
  EQV3("field-place", f.x[1], p->TrajPoint(2)); vf_reach("two");
}
// start of tracking: half step from the start momentum
HARNESS(h_init) {
  double q = vf_real("charge", -5, 5), m = vf_real("mass", 0.5, 3), dt = vf_real("dt", 0.5e-12, 2e-12), t = vf_real("t", -1e-10, 1e-10); ASSUME(m > 0.0); ASSUME(dt > 0.0);
  V3 X = real3("X"), P = real3("P"), A = real3("A");
  ASSUME(q != 0.0);
  ChargedParticle *p = new ChargedParticle(q, m); int pre = vf_choice("earlier", 0, 2); V3 eX[2], eP[2], eA[2]; double et[2]; char nb[8]; for (int i = 0; i < pre; i++) { et[i] = real(idx(nb, "et", i)); eX[i] = real3(idx(nb, "eX", i)); eP[i] = real3(idx(nb, "eP", i)); eA[i] = real3(idx(nb, "eA", i)); }
  if (!pre) p->initTrajectory(t, X.v(), P.v(), A.v()); else { p->initTrajectory(et[0], eX[0].v(), eP[0].v(), eA[0].v()); if (pre > 1) p->storeTrajectoryPoint(et[1], eX[1].v(), eP[1].v(), eA[1].v()); p->storeTrajectoryPoint(t, X.v(), P.v(), A.v()); } ProbeField f; f.mode = 5; f.sp = P; f.qmt2 = q / m * InvRestMass * 0.5 * dt;
  p->InitVay(dt, &f);
  double qm = q / m * InvRestMass; Hidden h = hidden(p); double gP = std::sqrt(1.0 + dot3(P, P));
  // p_1/2 = P + (q/m)(dt/2) [E/c + beta_1/2 x B]
  EQV3("half-step", sub(h.p, P), mul(add(mul(f.e[0], 1.0 / SpeedOfLight), cross3(mul(h.p, 1.0 / h.g), f.b[0])), 0.5 * qm * dt), 1.0);
  EQ("gamma", h.g * h.g, 1.0 + dot3(h.p, h.p)); CHECK("gamma-positive", h.g > 0.0);
  EQI("field-calls", f.n, 1); EQ("field-time", f.t[0], t); EQV3("field-place", f.x[0], X);
  EQI("points", p->getNP(), pre + 1); EQ("time", p->TrajTime(pre), t); EQV3("X", p->TrajPoint(pre), X); EQV3("P", p->TrajMomentum(pre), P);
  for (int i = 0; i < pre; i++) { EQ("earlier-t", p->TrajTime(i), et[i]); EQV3("earlier-X", p->TrajPoint(i), eX[i]); EQV3("earlier-P", p->TrajMomentum(i), eP[i]); EQV3("earlier-A", p->TrajAccel(i), eA[i]); }
  EQV3("A", p->TrajAccel(pre), mul(add(mul(f.e[0], 1.0 / SpeedOfLight), cross3(mul(P, 1.0 / gP), f.b[0])), qm));
  EQ("qm", h.qm, qm); EQ("dt", h.dt, dt); OBS3("p", h.p); vf_reach("init");
}
HARNESS(h_uninit) {
  ChargedParticle p(1.0, 1.0); ProbeField f; bool thrown = false;
  try { p.InitVay(1e-12, &f); } catch (RANGEexception &e) { thrown = true; }
  CHECK("needs-start-point", thrown); vf_reach("uninit");
}

// ---------------------------------------------------------------- C02
// every momentum is 2w/(1-w^2) with |w| < 1
static PState hyperbolic() {
  PState s = arbitrary(false); ASSUME(s.q != 0.0); V3 w = real3s("w", -0.5, 0.5); double d = 1.0 - dot3(w, w); ASSUME(d > 0.0);
  s.p = mul(w, 2.0 / d); s.g = (1.0 + dot3(w, w)) / d; return s;
}
HARNESS(h_magnetic) {
  PState s = hyperbolic(); ChargedParticle *p = make(s); ProbeField f; f.mode = 6; f.qmt2 = s.qmt2;
  p->StepVay(&f); Hidden h = hidden(p);
  EQ("gamma-kept", h.g, s.g);   // |p| follows with gamma^2 = 1 + p^2 (h_step)
  vf_reach("mag");
}
// drift in crossed fields with E + v x B = 0
HARNESS(h_crossed) {
  PState s = hyperbolic(); ChargedParticle *p = make(s); ProbeField f; f.mode = 7; f.qmt2 = s.qmt2; f.v = mul(s.p, SpeedOfLight / s.g);
  p->StepVay(&f); Hidden h = hidden(p);
  EQ("gamma", h.g, s.g); EQV3("uniform", h.p, s.p); EQV3("time-centred", p->TrajMomentum(1), s.p); EQV3("no-acceleration", p->TrajAccel(1), V3(), 1e11);
  vf_reach("crossed");
}
HARNESS(h_free) {
  PState s = arbitrary(); ChargedParticle *p = make(s); ProbeField f; f.mode = 3; int n = vf_choice("steps", 1, 4);
  for (int i = 1; i <= n; i++) { p->StepVay(&f);
    EQI("points", p->getNP(), i + 1); EQ("time", p->TrajTime(i), s.t + i * s.dt); EQV3("position", p->TrajPoint(i), add(s.X, mul(s.p, i * SpeedOfLight * s.dt / s.g))); EQV3("momentum", p->TrajMomentum(i), s.p); EQV3("accel", p->TrajAccel(i), V3()); }
  EQV3("first-untouched", p->TrajPoint(0), s.X); vf_reach("free");
}
// what is stored for a step
HARNESS(h_record) {
  PState s = arbitrary(); ChargedParticle *p = make(s); ProbeField f;
  p->StepVay(&f);
  V3 E = f.e[0], B = f.b[0]; V3 b = mul(s.p, 1.0 / s.g);
  V3 P = add(s.p, mul(add(mul(E, 1.0 / SpeedOfLight), cross3(b, B)), s.qmt2)); double g = std::sqrt(1.0 + dot3(P, P));
  V3 A = mul(add(mul(E, 1.0 / SpeedOfLight), cross3(mul(P, 1.0 / g), B)), s.qm);
  EQV3("momentum", p->TrajMomentum(1), P); EQV3("acceleration", p->TrajAccel(1), A);
  EQ("cur-time", p->getTime(), s.t + s.dt); EQV3("cur-pos", p->getPosition(), p->TrajPoint(1)); EQV3("cur-mom", p->getMomentum(), P); EQV3("cur-acc", p->getAccel(), A);
  double pb[16]; double *e = p->bufferProbe(pb); EQI("probe-size", e - pb, 16); EQI("probe-size2", p->getProbeBufferSize(), 16);
  EQ("probe-t", pb[0], s.t + s.dt); EQV3("probe-x", V3(pb[1], pb[2], pb[3]), p->TrajPoint(1)); EQV3("probe-p", V3(pb[4], pb[5], pb[6]), P); EQV3("probe-a", V3(pb[7], pb[8], pb[9]), A);
  EQV3("probe-E", V3(pb[10], pb[11], pb[12]), E); EQV3("probe-B", V3(pb[13], pb[14], pb[15]), B);
  EQV3("old-X", p->TrajPoint(0), s.X); EQV3("old-P", p->TrajMomentum(0), s.P); EQV3("old-A", p->TrajAccel(0), s.A); EQ("old-t", p->TrajTime(0), s.t);
  vf_reach("record");
}
HARNESS(h_indices) {
  int n = vf_choice("n", 0, 2); int k = vf_choice("k", -3, 4); ChargedParticle *p; double t[3]; V3 X[3], P[3], A[3]; char b[8];
  for (int i = 0; i < 3; i++) { t[i] = real(idx(b, "t", i)); X[i] = real3(idx(b, "X", i)); P[i] = real3(idx(b, "P", i)); A[i] = real3(idx(b, "A", i)); }
  p = new ChargedParticle(1.0, 1.0); if (n > 0) p->initTrajectory(t[0], X[0].v(), P[0].v(), A[0].v()); for (int i = 1; i < n; i++) p->storeTrajectoryPoint(t[i], X[i].v(), P[i].v(), A[i].v());
  int thrown = 0;
  try { double x = p->TrajTime(k); CHECK("range", k >= 0 && k < n); if (k >= 0 && k < n) EQ("time", x, t[k]); } catch (IOexception &e) { thrown++; }
  try { V3 x = p->TrajPoint(k); if (k >= 0 && k < n) EQV3("pos", x, X[k]); } catch (IOexception &e) { thrown++; }
  try { V3 x = p->TrajMomentum(k); if (k >= 0 && k < n) EQV3("mom", x, P[k]); } catch (IOexception &e) { thrown++; }
  try { V3 x = p->TrajAccel(k); if (k >= 0 && k < n) EQV3("acc", x, A[k]); } catch (IOexception &e) { thrown++; }
  EQI("rejected", thrown, (k >= 0 && k < n) ? 0 : 4); vf_reach("idx");
}
