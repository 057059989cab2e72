#include "ptc.h"
#include "fieldtrace.h"
static const double K = ElementaryCharge / (4.0 * Pi * EpsNull);
// specification: Lienard-Wiechert field of a charge q (in e) seen from rvec = observer - source; A = d(beta gamma)/dt
static void lw(double q, V3 rvec, double R, V3 P, double g, V3 A, V3 &E, V3 &B) {
  V3 n = mul(rvec, 1.0 / R), b = mul(P, 1.0 / g);
  V3 bp = mul(sub(A, mul(b, dot3(b, A))), 1.0 / g);
  double k = 1.0 - dot3(n, b), k3 = k * k * k; V3 nb = sub(n, b);
  V3 v = mul(nb, 1.0 / (g * g * k3 * R * R));
  V3 a = mul(cross3(n, cross3(nb, bp)), 1.0 / (SpeedOfLight * k3 * R));
  E = mul(add(v, a), q * K); B = mul(cross3(n, E), 1.0 / SpeedOfLight);
}
HARNESS(h_lw) {
  check_constants();
  double q = vf_real("charge", -5, 5), t = vf_real("t", -1e-9, 1e-9); V3 X = real3("X"), P = real3("P"), A = real3s("A", -1e9, 1e9), r = real3("r");
  double R2 = dot3(r, r); ASSUME(R2 > 0.0);
  double T[1] = {t}; ChargedParticle *p = traj_particle(q, 1.0, 1, T, &X, &P, &A);
  V3 O = add(X, r); ElMagField f = p->RetardedField(0, O.v());
  double R = std::sqrt(R2); V3 E, B; lw(q, r, R, P, std::sqrt(1.0 + dot3(P, P)), A, E, B);
  double s = std::fabs(q) * K / R2;
  EQV3("E", V3(f.E()), E, s); EQV3("B", V3(f.B()), B, s / SpeedOfLight); EQ("time", p->RetardedTime(0, O.v()), t + R / SpeedOfLight);
  OBS3("fE", V3(f.E())); vf_reach("lw");
}
// the same point gives the same field whatever else is in the trajectory; wrong indices are rejected
HARNESS(h_index) {
  int k = vf_choice("k", -1, 3); double T[3]; V3 X[3], P[3], A[3]; char b[8];
  for (int i = 0; i < 3; i++) { T[i] = i * 1e-11; X[i] = V3(0, 0, 0.01 * i); P[i] = V3(); P[i].z = 2.0; P[i].x = vf_real(idx(b, "p", i), -1, 1); A[i] = V3(vf_real(idx(b, "a", i), -1e9, 1e9), 0, 0); }
  ChargedParticle *p = traj_particle(1.0, 1.0, 3, T, X, P, A); Vector O(0, 0, 1.0);
  try { ElMagField f = p->RetardedField(k, O); CHECK("accepted", k >= 0 && k < 3);
    V3 E, B; double R = 1.0 - 0.01 * k; lw(1.0, V3(0, 0, R), R, P[k], std::sqrt(1.0 + dot3(P[k], P[k])), A[k], E, B);
    EQV3("E", V3(f.E()), E); EQV3("B", V3(f.B()), B); EQ("time", p->RetardedTime(k, O), T[k] + R / SpeedOfLight);
  } catch (IOexception &e) { CHECK("rejected", k < 0 || k > 2); }
  vf_reach("index");
}
HARNESS(h_rest) {
  double q = vf_real("charge", -5, 5); V3 X = real3("X"), r = real3("r"), z; double R2 = dot3(r, r), T[1] = {0}; ASSUME(R2 > 0.0);
  ChargedParticle *p = traj_particle(q, 1.0, 1, T, &X, &z, &z); ElMagField f = p->RetardedField(0, add(X, r).v());
  double R = std::sqrt(R2); EQV3("coulomb", V3(f.E()), mul(r, q * K / (R2 * R))); EQV3("noB", V3(f.B()), z, K / SpeedOfLight); vf_reach("rest");
}
HARNESS(h_charge) {   // linear in the charge
  double q = vf_real("charge", -5, 5), f = vf_real("factor", -3, 3), T[1] = {0}; V3 X = real3("X"), P = real3("P"), A = real3s("A", -1e9, 1e9), r = real3("r"); ASSUME(dot3(r, r) > 0.0);
  ChargedParticle *p = traj_particle(q, 1.0, 1, T, &X, &P, &A), *s = traj_particle(q * f, 1.0, 1, T, &X, &P, &A);
  ElMagField a = p->RetardedField(0, add(X, r).v()), b = s->RetardedField(0, add(X, r).v());
  EQV3("E", V3(b.E()), mul(V3(a.E()), f)); EQV3("B", V3(b.B()), mul(V3(a.B()), f)); vf_reach("charge");
}

// ---------------------------------------------------------------- C05
// before the start of the trajectory: uniform motion continued backwards.  Emission at time T0+tau, light runs R along n.
static V3 unit(const char *a, const char *b) { double u = vf_real(a, -1, 1), v = vf_real(b, -1, 1), d = 1.0 + u * u + v * v; return V3(2.0 * u / d, 2.0 * v / d, (1.0 - u * u - v * v) / d); }
HARNESS(h_before) {
  int axis = vf_choice("axis", 0, 2), np = axis == 1 ? 4 : vf_choice("points", 1, 2); double w = vf_real("w", -0.7, 0.7), T0 = vf_real("T0", -1e-9, 1e-9), tau = vf_real("tau", -2.0, 0.0), R = vf_real("R", 0.5, 2.0), q = vf_real("charge", -5, 5);
  ASSUME(w > -1.0); ASSUME(w < 1.0); ASSUME(tau <= 0.0); ASSUME(R > 0.0);       // tau in units of 1 m / c
  double d = 1.0 - w * w, g = (1.0 + w * w) / d, pz = 2.0 * w / d; V3 P(axis == 0 ? pz : 0, axis == 1 ? pz : 0, axis == 2 ? pz : 0), beta = mul(P, 1.0 / g);
  V3 X0 = real3("X"), n = unit("u", "v"); V3 S = add(X0, mul(beta, tau)), O = add(S, mul(n, R)); double obs = T0 + (tau + R) / SpeedOfLight;
  double T[4]; V3 X[4], PP[4], A[4]; A[0] = real3s("A", -1e9, 1e9); for (int i = 0; i < 4; i++) { T[i] = T0 + i * 1e-9; X[i] = add(X0, mul(beta, i * 1e-9 * SpeedOfLight)); PP[i] = P; A[i] = A[0]; }
  ChargedParticle *p = traj_particle(q, 1.0, np, T, X, PP, A); ElMagField f = p->RetardedField(obs, O.v());
  V3 E, B; lw(q, mul(n, R), R, P, g, V3(), E, B); double s = std::fabs(q) * K / (R * R);
  EQV3("E", V3(f.E()), E, s); EQV3("B", V3(f.B()), B, s / SpeedOfLight); vf_reach("before");
}
// within and after the trajectory; source points on a line through the observer, arbitrary momenta and accelerations
HARNESS(h_within) {
  int np = vf_choice("points", 2, 3), axis = vf_choice("axis", 0, 2), side = vf_choice("side", 0, 1); double T[3], d[3], q = vf_real("charge", -5, 5); V3 X[3], P[3], A[3]; char b[8];
  V3 O = real3("O"), e(axis == 0, axis == 1, axis == 2); if (side) e = mul(e, -1.0);
  T[0] = vf_real("T0", -1.0, 1.0);
  for (int i = 0; i < np; i++) {
    if (i) { double s = vf_real(idx(b, "dt", i), 0.01, 0.2); ASSUME(s > 0.0); T[i] = T[i - 1] + s; }
    d[i] = vf_real(idx(b, "d", i), 1.0, 3.0); ASSUME(d[i] > 0.0); if (i) { ASSUME(d[i] - d[i - 1] < T[i] - T[i - 1]); ASSUME(d[i - 1] - d[i] < T[i] - T[i - 1]); }
    X[i] = sub(O, mul(e, d[i])); P[i] = real3(idx(b, "P", i)); A[i] = real3s(idx(b, "A", i), -1e9, 1e9); }
  // the observer's time as a fraction of the way between the arrivals of two successive points, or after the last one
  double T1[3]; for (int i = 0; i < np; i++) T1[i] = T[i] / SpeedOfLight;
  int i = vf_choice("segment", 0, np - 1); double fr = vf_real("fraction", 0.0, 1.0), t; ASSUME(fr > 0.0);
  if (i < np - 1) { ASSUME(fr <= 1.0); t = (T[i] + d[i]) + ((T[i + 1] + d[i + 1]) - (T[i] + d[i])) * fr; } else t = T[i] + d[i] + fr;
  ChargedParticle *p = traj_particle(q, 1.0, np, T1, X, P, A); ElMagField f = p->RetardedField(t / SpeedOfLight, O.v());
  V3 E, B; if (i < np - 1) {
    V3 PP = add(mul(P[i], 1.0 - fr), mul(P[i + 1], fr)), AA = add(mul(A[i], 1.0 - fr), mul(A[i + 1], fr)); double R = d[i] * (1.0 - fr) + d[i + 1] * fr;
    lw(q, mul(e, R), R, PP, std::sqrt(1.0 + dot3(PP, PP)), AA, E, B); vf_reach("inside");
  } else vf_reach("passed");
  EQV3("E", V3(f.E()), E, std::fabs(q) * K); EQV3("B", V3(f.B()), B, std::fabs(q) * K / SpeedOfLight);
}
// observers off the axis of the motion: the state between two stored points is found by an iteration.  Fixed geometries (observer = source
// point + R n, so the light cone is met exactly at the fraction fr of the segment), any accelerations, agreement within 1e-7
HARNESS(h_offaxis) {
  static const int NN[4][4] = {{3, 0, 4, 5}, {0, 4, -3, 5}, {2, 1, 2, 3}, {-2, 6, 3, 7}}; static const double FR[4] = {0.0625, 0.375, 0.625, 0.9375};
  int np = vf_choice("points", 0, 1) ? 5 : 2, kn = vf_choice("direction", 0, 3), kf = vf_choice("at", 0, 3), far = vf_choice("far", 0, 1), slow = 1 - far;
  int sgm = vf_choice("segment", 0, 3); if (sgm > np - 2) return;
  vf_round(128); double T[5], T1[5]; V3 X[5], P[5], A[5]; char b[8];
  for (int i = 0; i < np; i++) { T[i] = (slow ? 0.25 : 0.125) * i; T1[i] = T[i] / SpeedOfLight; X[i] = V3(0.0078125 * i * i, -0.00390625 * i, 0.1015625 * i); P[i] = V3(0.25 * i, -0.125, slow ? 0.5 : 2.5); A[i] = V3(); if (i == sgm || i == sgm + 1) {
    A[i] = real3s(idx(b, "A", i), -1e9, 1e9); ASSUME(A[i].x >= -1e9); ASSUME(A[i].x <= 1e9); ASSUME(A[i].y >= -1e9); ASSUME(A[i].y <= 1e9); ASSUME(A[i].z >= -1e9); ASSUME(A[i].z <= 1e9); } }
  double fr = FR[kf], R = far ? 4.0 : 0.75, di = NN[kn][3]; V3 n(NN[kn][0] / di, NN[kn][1] / di, NN[kn][2] / di);
  V3 S = add(mul(X[sgm], 1.0 - fr), mul(X[sgm + 1], fr)), O = add(S, mul(n, R)); double t = T[sgm] * (1.0 - fr) + T[sgm + 1] * fr + R;
  ChargedParticle *p = traj_particle(2.0, 1.0, np, T1, X, P, A); ElMagField f = p->RetardedField(t / SpeedOfLight, O.v());
  V3 PP = add(mul(P[sgm], 1.0 - fr), mul(P[sgm + 1], fr)), AA = add(mul(A[sgm], 1.0 - fr), mul(A[sgm + 1], fr)), E, B; double g = std::sqrt(1.0 + dot3(PP, PP)), k = 1.0 - dot3(n, PP) / g;
  lw(2.0, mul(n, R), R, PP, g, AA, E, B); double s = 2.0 * K / (k * k * k) * (1.0 / (g * g * R * R) + 3.0 / R), tol = 1e-7 * s;
  V3 e(f.E()), h(f.B());
  vf_check_tol("E.x", e.x, E.x, tol); vf_check_tol("E.y", e.y, E.y, tol); vf_check_tol("E.z", e.z, E.z, tol);
  tol = tol / SpeedOfLight; vf_check_tol("B.x", h.x, B.x, tol); vf_check_tol("B.y", h.y, B.y, tol); vf_check_tol("B.z", h.z, B.z, tol); vf_reach("offaxis");
}
HARNESS(h_empty) { ChargedParticle p(1.0, 1.0); bool th = false; try { p.RetardedField(1.0, Vector(0, 0, 1)); } catch (RANGEexception &e) { th = true; } CHECK("no-trajectory-rejected", th); vf_reach("empty"); }

// ---------------------------------------------------------------- C06
HARNESS(h_trace) {
  int N = vf_choice("N", 2, VF_NT), np = vf_choice("points", 2, vf_symbolic() ? (N > 3 ? 2 : VF_NP) : 3); double T[4], d[4], sg[4]; V3 X[4], P[4], A[4]; char b[8];
  double t0 = vf_real("t0", -1.0, 1.0), dt = vf_real("dt", 0.2, 1.0), q = vf_real("charge", 0.5, 5.0); ASSUME(dt > 0.0);
  for (int i = 0; i < np; i++) {
    d[i] = vf_real(idx(b, "d", i), 1.0, 2.0); ASSUME(d[i] > 0.0);
    sg[i] = vf_real(idx(b, "s", i), -1.5, 3.0); if (i) ASSUME(sg[i] > sg[i - 1]);       // arrival time in units of the bins
    T[i] = (t0 + sg[i] * dt) - d[i];
    X[i] = V3(0, 0, -d[i]); A[i] = V3(vf_real(idx(b, "A", i), -1e9, 1e9), 0, 0); }
  FieldTrace tr(t0 / SpeedOfLight, dt / SpeedOfLight, N); V3 g[8];
  for (int k = 0; k < N; k++) { g[k] = V3(vf_real(idx(b, "g", k), -1e-9, 1e-9), 0, 0); tr.set_field(k, ElMagField(g[k].v(), VectorZero)); }
  double T1[4]; for (int i = 0; i < np; i++) T1[i] = T[i] / SpeedOfLight;
  ChargedParticle *p = traj_particle(q, 1.0, np, T1, X, P, A); Vector O(0, 0, 0); V3 F[4], H[4];
  for (int i = 0; i < np; i++) { ElMagField f = p->RetardedField(i, O); F[i] = f.E(); H[i] = f.B(); }
  bool ok = true; try { p->integrateFieldTrace(O, &tr); } catch (IOexception &e) { ok = false; } CHECK("no-exception", ok);
  for (int k = 0; k < N; k++) {
    double b0 = k - 0.5, b1 = k + 0.5; V3 S, M;
    for (int i = 0; i + 1 < np; i++) {
      double s1 = sg[i], s2 = sg[i + 1]; double lo = vf_decide(s1 > b0) ? s1 : b0, hi = vf_decide(s2 < b1) ? s2 : b1;
      if (vf_decide(hi > lo)) { double m = (0.5 * (lo + hi) - s1) / (s2 - s1), w = hi - lo; S = add(S, mul(add(mul(F[i], 1.0 - m), mul(F[i + 1], m)), w)); M = add(M, mul(add(mul(H[i], 1.0 - m), mul(H[i + 1], m)), w)); }
    }
    ElMagField r = tr.get_field((std::size_t)k);
    EQS("E.x", r.E().x, g[k].x + S.x, 1e-9); EQS("E.z", r.E().z, S.z, 1e-9); EQS("B.y", r.B().y, M.y, 1e-17); OBS3("E", V3(r.E()));
  }
  EQ("t0", tr.get_t0(), t0 / SpeedOfLight); EQ("dt", tr.get_dt(), dt / SpeedOfLight); vf_reach("trace");
}
// rounding errors in the arrival times never address a sample outside of the trace.  Natively: arrival times next to the window limits
static bool rounding_case(double t0, double dt, int N, double T1, double T2) {
  double T[2] = {T1, T2}; V3 X[2], P[2], A[2]; X[0].z = X[1].z = -0.25; FieldTrace tr(t0, dt, N); ChargedParticle *p = traj_particle(vf_symbolic() ? 0.0 : 1.0, 1.0, 2, T, X, P, A);
  bool ok = true; try { p->integrateFieldTrace(VectorZero, &tr); } catch (IOexception &e) { ok = false; } delete p; return ok;
}
HARNESS(h_trace_rounding) {
  int N = vf_choice("N", 2, 3); double t0 = vf_choice("late", 0, 1) ? 1.7e-8 : 3e-13, dt = vf_choice("step", 0, 1) ? 1.1e-13 : 0.7e-13;
  double a = vf_real("first", -1, 1), b = vf_real("second", 0.001, 4); ASSUME(b >= 0.001); ASSUME(b <= 4.0); ASSUME(a >= -2.0); ASSUME(a <= 4.0);
  if (vf_symbolic()) { double s = t0 + a * dt - 0.25 / SpeedOfLight; vf_rounding(2); CHECK("inside-trace", rounding_case(t0, dt, N, s, s + b * dt)); }

  else { bool ok = true; for (int k = 0; k < 40000 && ok; k++) { double t = 1e-8 * (k % 61) / 61.0 + (k % 7) * 1e-13, d = 1e-13 * (0.5 + (k % 997) / 997.0); int n = 2 + k % 501; double lo = t - d * 0.5, hi = t + d * ((double)n - 0.5), R = 0.25 / SpeedOfLight;
    for (int e = 0; e < 2; e++) { double x = (e ? hi : lo) - R; for (int i = 0; i < 4; i++) x = std::nextafter(x, -1.0); for (int i = 0; i < 8; i++, x = std::nextafter(x, 1.0)) {
      double y = x + R, r1 = std::round((y - t) / d), r2 = std::floor((y - lo) / d), r3 = std::floor((y - t) / d + 0.5); bool edge = r1 < 0 || r1 >= n || r2 < 0 || r2 >= n || r3 < 0 || r3 >= n;      // only times that rounding may put outside
      if (edge && y > lo && y < hi || k % 400 == 0) ok = ok && rounding_case(t, d, n, x, x + 0.3 * d) && rounding_case(t, d, n, x - 0.3 * d, x) && rounding_case(t, d, n, x, std::nextafter(x, 1.0)); } } } CHECK("inside-trace", ok); }
  vf_reach("rounding");
}
// traces or trajectories without extent contribute nothing
HARNESS(h_trace_short) {
  int N = vf_choice("N", 0, 2), np = vf_choice("points", 1, 2); if (N > 1 && np > 1) return; double T[2] = {0, 1e-9}; V3 X[2], P[2], A[2]; X[0].z = -1; X[1].z = -1;
  FieldTrace tr(3e-9, 1e-9, N); V3 g[2]; char b[8]; for (int k = 0; k < N; k++) { g[k] = real3(idx(b, "g", k)); tr.set_field(k, ElMagField(g[k].v(), VectorZero)); }
  ChargedParticle *p = traj_particle(1.0, 1.0, np, T, X, P, A); p->integrateFieldTrace(VectorZero, &tr); for (int k = 0; k < N; k++) EQV3("same", V3(tr.get_field((std::size_t)k).E()), g[k]); vf_reach("short");
}
