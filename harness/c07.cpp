#include "common.h"
#include "fieldtrace.h"
static const char *idx(char *b, const char *n, int i) { strcpy(b, n); int l = strlen(b); b[l] = '0' + i; b[l + 1] = 0; return b; }
struct Tr { FieldTrace *t; double t0, dt; int N; V3 E[5], B[5]; };
static void fill(Tr &r, const char *n, int N, double t0, double dt) { char b[16], c[20]; r.N = N; r.t0 = t0; r.dt = dt; r.t = new FieldTrace(t0, dt, N);
  for (int i = 0; i < N; i++) { idx(b, n, i); nm(c, b, "E"); r.E[i] = real3(c); nm(c, b, "B"); r.B[i] = real3(c); r.t->set_field(i, ElMagField(r.E[i].v(), r.B[i].v())); } }
static void same(const char *id, FieldTrace *t, const Tr &r) { char c[64]; nm(c, id, "-N"); EQI(c, (long)t->get_N(), r.N); nm(c, id, "-t0"); EQ(c, t->get_t0(), r.t0); nm(c, id, "-dt"); EQ(c, t->get_dt(), r.dt);
  for (int i = 0; i < r.N; i++) { ElMagField f = t->get_field((std::size_t)i); nm(c, id, "-E"); EQV3(c, V3(f.E()), r.E[i]); nm(c, id, "-B"); EQV3(c, V3(f.B()), r.B[i]); } }
static void is(const char *id, FieldTrace *t, int i, V3 E, V3 B) { char c[64]; ElMagField f = t->get_field((std::size_t)i); nm(c, id, "-E"); EQV3(c, V3(f.E()), E, 1e-3); nm(c, id, "-B"); EQV3(c, V3(f.B()), B, 1e-3); }
static double pos(const char *n) { double d = vf_real(n, 0.2, 2.0); ASSUME(d > 0.0); return d; }

HARNESS(h_basic) {
  int N = vf_choice("N", 0, 4); double t0 = real("t0"), dt = pos("dt"); FieldTrace z(t0, dt, N); EQI("N", (long)z.get_N(), N); EQ("t0", z.get_t0(), t0); EQ("dt", z.get_dt(), dt);
  for (int i = 0; i < N; i++) is("zero", &z, i, V3(), V3());
  Tr r; fill(r, "f", N, t0, dt); same("set", r.t, r);
  for (int i = 0; i < N; i++) EQ("time", r.t->get_time(i), t0 + i * dt);
  EQ("last", r.t->get_last_time(), N > 0 ? t0 + (N - 1) * dt : t0); EQ("center", r.t->get_center_time(), t0 + 0.5 * dt * N);
  // copies are independent of the original
  FieldTrace *c = new FieldTrace(r.t); same("copy", c, r); if (N > 0) c->set_field(0, ElMagField(Vector(9, 9, 9), Vector(9, 9, 9))); c->set_t0(77.0); EQ("set_t0", c->get_t0(), 77.0); same("original", r.t, r);
  FieldTrace d(0.0, 1.0, N); d = *r.t; same("assigned", &d, r); if (N > 0) d.add(0, ElMagField(Vector(1, 1, 1), VectorZero)); same("original2", r.t, r);
  *r.t = *r.t; same("self", r.t, r);
  if (N > 0) { int k = N / 2; V3 e = real3("ae"), b = real3("ab"); c->set_field(k, ElMagField(r.E[k].v(), r.B[k].v())); c->add(k, ElMagField(e.v(), b.v())); is("add", c, k, add(r.E[k], e), add(r.B[k], b)); }
  c->zero(); for (int i = 0; i < N; i++) is("zeroed", c, i, V3(), V3()); vf_reach("basic");
}
// wrong indices and sizes are rejected and nothing is changed
HARNESS(h_reject) {
  int N = vf_choice("N", 0, 2), what = vf_choice("what", 0, 8); Tr r; fill(r, "f", N, 1.0, 0.5); ElMagField f(Vector(1, 2, 3), Vector(4, 5, 6)); bool th = false;
  int k = vf_choice("index", 0, 3); std::size_t i = k == 0 ? N : k == 1 ? N + 1 : k == 2 ? (std::size_t)-1 : ((std::size_t)1 << 32);
  try {
    if (what == 0) r.t->get_field(i); else if (what == 1) r.t->set_field(i, f); else if (what == 2) r.t->add(i, f); else if (what == 3) r.t->get_time(i);
    else if (what == 4) { FieldTrace o(1.0, 0.5, k < 3 ? N + k + 1 : N > 0 ? N - 1 : 7); r.t->operator=(o); }
    else if (what == 5 || what == 6) { ElMagField b[8]; std::size_t n = k == 0 ? N + 1 : k == 1 && N > 0 ? N - 1 : N + k + 2; if (what == 5) r.t->get_buffer(b, n); else r.t->set_buffer(b, n); }
    else { Tr o; fill(o, "o", k == 0 ? N + 1 : k == 3 && N > 0 ? N - 1 : k == 3 ? N + 2 : N, k == 1 ? 1.25 : 1.0, k == 2 ? 0.25 : 0.5); if (what == 7) { FieldTrace s = *r.t + *o.t; } else { FieldTrace s = *r.t - *o.t; } }
  } catch (IOexception &e) { th = true; }
  CHECK("rejected", th); same("unchanged", r.t, r); vf_reach("reject");
}
HARNESS(h_reject_acc) {
  int N = vf_choice("N", 1, 2), k = vf_choice("k", 0, 3); Tr r, o; fill(r, "f", N, 1.0, 0.5); fill(o, "o", k == 0 ? N + 1 : k == 3 ? N - 1 : N, k == 1 ? 1.25 : 1.0, k == 2 ? 0.25 : 0.5); bool th = false;
  try { *r.t += *o.t; } catch (IOexception &e) { th = true; } CHECK("rejected", th); same("unchanged", r.t, r); same("operand", o.t, o); vf_reach("acc");
}
// the trace is a function of time: interpolated between the samples, zero before and after
HARNESS(h_interp) {
  int N = vf_choice("N", 0, 3), k = vf_choice("segment", -3, 4); double t0 = real("t0"), dt = pos("dt"), fr = vf_real("fraction", 0.0, 1.0); ASSUME(fr >= 0.0); ASSUME(fr < 1.0); Tr r; fill(r, "f", N, t0, dt);
  ElMagField f = r.t->get_field(t0 + (k + fr) * dt); V3 E, B; if (k >= 0 && k < N) { E = mul(r.E[k], 1.0 - fr); B = mul(r.B[k], 1.0 - fr); } if (k + 1 >= 0 && k + 1 < N) { E = add(E, mul(r.E[k + 1], fr)); B = add(B, mul(r.B[k + 1], fr)); }
  EQV3("E", V3(f.E()), E, 1e-6); EQV3("B", V3(f.B()), B, 1e-6); same("unchanged", r.t, r); OBS3("E", V3(f.E())); vf_reach("interp");
}
HARNESS(h_far) {   // any time outside of the window by more than a step
  int N = vf_choice("N", 0, 3); double t0 = real("t0"), dt = pos("dt"), u = vf_real("distance", 1.0, 20.0); int side = vf_choice("side", 0, 1); ASSUME(u > 1.0); ASSUME(u < 2e9); Tr r; fill(r, "f", N, t0, dt);
  ElMagField f = r.t->get_field(side ? t0 + (N - 1 + u) * dt : t0 - u * dt); EQV3("E", V3(f.E()), V3()); EQV3("B", V3(f.B()), V3()); vf_reach("far");
}
HARNESS(h_ops) {
  int N = vf_choice("N", 0, 3); double t0 = real("t0"), dt = pos("dt"), f = vf_real("factor", -3, 3); Tr a, b; fill(a, "a", N, t0, dt); fill(b, "b", N, t0, dt);
  FieldTrace s = *a.t + *b.t, d = *a.t - *b.t, m = *a.t * f; same("a", a.t, a); same("b", b.t, b);
  for (int i = 0; i < N; i++) { is("sum", &s, i, add(a.E[i], b.E[i]), add(a.B[i], b.B[i])); is("diff", &d, i, sub(a.E[i], b.E[i]), sub(a.B[i], b.B[i])); is("scaled", &m, i, mul(a.E[i], f), mul(a.B[i], f)); }
  EQ("t0", s.get_t0(), t0); EQ("t0", d.get_t0(), t0); EQ("t0", m.get_t0(), t0); EQ("dt", s.get_dt(), dt); EQ("dt", d.get_dt(), dt); EQ("dt", m.get_dt(), dt); EQI("N", s.get_N(), N); EQI("N", d.get_N(), N); EQI("N", m.get_N(), N);
  ASSUME(f != 0.0); FieldTrace q = *a.t / f; for (int i = 0; i < N; i++) is("quotient", &q, i, mul(a.E[i], 1.0 / f), mul(a.B[i], 1.0 / f)); EQ("t0", q.get_t0(), t0); same("a2", a.t, a);
  FieldTrace &r = (*a.t += *b.t); CHECK("self", &r == a.t); for (int i = 0; i < N; i++) is("acc", a.t, i, add(a.E[i], b.E[i]), add(a.B[i], b.B[i])); same("b2", b.t, b); vf_reach("ops");
}
HARNESS(h_energy) {
  int N = vf_choice("N", 0, 3); double dt = pos("dt"); Tr a; fill(a, "a", N, 0.3, dt); V3 S; for (int i = 0; i < N; i++) S = add(S, mul(cross3(a.E[i], a.B[i]), dt / (4e-7 * Pi))); EQV3("poynting", V3(a.t->Poynting()), S, 1e3); same("a", a.t, a); vf_reach("energy");
}
HARNESS(h_derivative) {
  int N = vf_choice("N", 0, 5); double dt = pos("dt"); Tr a; fill(a, "a", N, 0.3, dt); FieldTrace *d = 0; bool th = false; try { d = a.t->derivative(); } catch (IOexception &e) { th = true; }
  same("a", a.t, a); if (N < 2) { CHECK("too-short-rejected", th); vf_reach("short"); return; } CHECK("accepted", !th);
  EQI("N", d->get_N(), N); EQ("t0", d->get_t0(), 0.3); EQ("dt", d->get_dt(), dt);
  for (int i = 0; i < N; i++) { int l = i > 0 ? i - 1 : 0, h = i < N - 1 ? i + 1 : N - 1; double f = 1.0 / ((h - l) * dt); is("d", d, i, mul(sub(a.E[h], a.E[l]), f), mul(sub(a.B[h], a.B[l]), f)); } vf_reach("derivative");
}
HARNESS(h_cancel) {
  int N = vf_choice("N", 0, 2); Tr a; fill(a, "a", N, 0.3, 0.5); V3 n = real3("n"); double n2 = dot3(n, n); ASSUME(n2 > 0.0); a.t->cancel_long_fields(n.v());
  for (int i = 0; i < N; i++) is("transverse", a.t, i, sub(a.E[i], mul(n, dot3(a.E[i], n) / n2)), sub(a.B[i], mul(n, dot3(a.B[i], n) / n2))); EQ("t0", a.t->get_t0(), 0.3); vf_reach("cancel");
}
HARNESS(h_transform) {
  int N = vf_choice("N", 0, 2); Tr a; fill(a, "a", N, 0.3, 0.5); V3 x = real3("ex"), y = real3("ey"), z = real3("ez"); a.t->transform(x.v(), y.v(), z.v());
  for (int i = 0; i < N; i++) is("axes", a.t, i, V3(dot3(a.E[i], x), dot3(a.E[i], y), dot3(a.E[i], z)), V3(dot3(a.B[i], x), dot3(a.B[i], y), dot3(a.B[i], z))); EQ("t0", a.t->get_t0(), 0.3); EQ("dt", a.t->get_dt(), 0.5); vf_reach("transform");
}
HARNESS(h_buffer) {
  int N = vf_choice("N", 0, 4); Tr a; fill(a, "a", N, 0.3, 0.5); std::vector<ElMagField> b(N); a.t->get_buffer(b.data(), N); FieldTrace c(0.1, 0.2, N); c.set_buffer(b.data(), N); same("a", a.t, a); for (int i = 0; i < N; i++) { is("restored", &c, i, a.E[i], a.B[i]); EQV3("buf", V3(b[i].E()), a.E[i]); } EQ("t0", c.get_t0(), 0.1); EQ("dt", c.get_dt(), 0.2); vf_reach("buffer");
}
// field arithmetic the traces are built from
HARNESS(h_field) {
  V3 e1 = real3("e1"), b1 = real3("b1"), e2 = real3("e2"), b2 = real3("b2"); double f = vf_real("f", 0.5, 3); ASSUME(f != 0.0); ElMagField a(e1.v(), b1.v()), b(e2.v(), b2.v()), c; EQV3("zero", V3(c.E()), V3()); EQV3("zero", V3(c.B()), V3());
  c = a; c += b; EQV3("+=", V3(c.E()), add(e1, e2)); EQV3("+=", V3(c.B()), add(b1, b2)); c -= b; EQV3("-=", V3(c.E()), e1); EQV3("-=", V3(c.B()), b1); c *= f; EQV3("*=", V3(c.E()), mul(e1, f)); EQV3("*=", V3(c.B()), mul(b1, f)); c /= f; EQV3("/=", V3(c.E()), e1); EQV3("/=", V3(c.B()), b1);
  c = a + b; EQV3("+", V3(c.E()), add(e1, e2)); EQV3("+", V3(c.B()), add(b1, b2)); c = a - b; EQV3("-", V3(c.E()), sub(e1, e2)); EQV3("-", V3(c.B()), sub(b1, b2)); c = a * f; EQV3("*", V3(c.E()), mul(e1, f)); EQV3("*", V3(c.B()), mul(b1, f)); c = a / f; EQV3("/", V3(c.E()), mul(e1, 1 / f)); EQV3("/", V3(c.B()), mul(b1, 1 / f));
  EQV3("S", V3(a.Poynting()), mul(cross3(e1, b1), 1.0 / (4e-7 * Pi)), 1e3); EQV3("a", V3(a.E()), e1); EQV3("a", V3(a.B()), b1); c.Zero(); EQV3("Zero", V3(c.E()), V3()); EQV3("Zero", V3(c.B()), V3()); CHECK("isnull", c.isNull()); vf_reach("field");
}
// ---------------------------------------------------------------- C08
static void retard(bool simple) {
  int N = vf_choice("N", 1, 2), M = vf_choice("M", 1, 2), k[2], in = 0; double t0 = real("t0"), dt = pos("dt"), delay = vf_real("delay", -2.0, 2.0), f[2]; char b0[8];
  // the samples of the target look at the source in the segment k, the fraction f after its start
  for (int j = 0; j < M; j++) { k[j] = vf_choice(idx(b0, "k", j), -2, N); f[j] = vf_real(idx(b0, "f", j), 0.0, 1.0); if (simple) ASSUME(f[j] > 1e-3); else ASSUME(f[j] >= 0.0); ASSUME(f[j] < 1.0); if (k[j] >= -1 && k[j] < N) in++; }
  if (M == 2 && k[1] < k[0]) return;
  double r = M == 2 ? (k[1] - k[0]) + (f[1] - f[0]) : 0.5; ASSUME(r > 0.0);
  Tr a, b; fill(a, "a", N, t0, dt); if (simple) for (int i = 0, ax = vf_choice("axis", 0, 2); i < N; i++) { double e = a.E[i].x; ASSUME(e > 0.0); a.B[i] = V3(ax == 2, ax == 0, ax == 1); a.E[i] = V3(ax == 0 ? e : 0.0, ax == 1 ? e : 0.0, ax == 2 ? e : 0.0); a.t->set_field(i, ElMagField(a.E[i].v(), a.B[i].v())); }
  double u0 = t0 + (k[0] + f[0]) * dt + delay, udt = r * dt; fill(b, "b", M, u0, udt); bool th = false; try { a.t->retard(delay, b.t); } catch (IOexception &e) { th = true; }
  EQ("t0", b.t->get_t0(), u0); EQ("dt", b.t->get_dt(), udt); EQI("N", b.t->get_N(), M); same("source", a.t, a);
  if (simple) { CHECK("rejected-without-signal", th == (in == 0)); vf_reach(th ? "rejected" : "accepted"); }
  if (th) return;
  for (int j = 0; j < M; j++) { V3 E, B; int n = k[j]; double w = f[j];
    if (n >= 0 && n < N) { E = mul(a.E[n], 1.0 - w); B = mul(a.B[n], 1.0 - w); } if (n + 1 >= 0 && n + 1 < N) { E = add(E, mul(a.E[n + 1], w)); B = add(B, mul(a.B[n + 1], w)); }
    is("sample", b.t, j, E, B); }
  vf_reach("retarded");
}
HARNESS(h_retard) { retard(false); }
HARNESS(h_retard_reject) { retard(true); }
