#include "common.h"
#include "fields.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#ifndef VF_DEEP
#define DEEP 0
#else
#define DEEP 1
#endif
static double sq(double a) { return a * a; }
static V3 E(ElMagField f) { return V3(f.E()); }
static V3 B(ElMagField f) { return V3(f.B()); }
static void same(const char *id, ElMagField f, V3 e, V3 b) { char c[64]; nm(c, id, ".E"); EQV3(c, E(f), e, 1.0); nm(c, id, ".B"); EQV3(c, B(f), b, 1.0); }
// ---------------------------------------------------------------- C16
struct Fn : public GeneralField { char tag; static int alive; Fn(char t) : tag(t) { alive++; } ~Fn() { alive--; } bool is_external() override { return true; }
  static V3 val(char tag, char k, double t, V3 X) { char n[4] = {k, 'x', tag, 0}; double a[4] = {t, X.x, X.y, X.z}; V3 r; r.x = vf_fn(n, 4, a); n[1] = 'y'; r.y = vf_fn(n, 4, a); n[1] = 'z'; r.z = vf_fn(n, 4, a); return r; }
  ElMagField Field(double t, Vector X) override { return ElMagField(val(tag, 'E', t, V3(X)).v(), val(tag, 'B', t, V3(X)).v()); } };
int Fn::alive = 0;
struct Loc : public LocalizedField { int n; Loc() : n(0) {} Loc(double t, Vector p) : LocalizedField(t, p), n(0) {} ElMagField LocalField(double t, Vector X) override { n++; return ElMagField(Fn::val('L', 'E', t, V3(X)).v(), Fn::val('L', 'B', t, V3(X)).v()); } };
HARNESS(h_lattice) {
  int n = vf_choice("n", 0, DEEP ? 9 : 6), perm = vf_choice("perm", 0, 2), rem = vf_choice("remove", -2, DEEP ? 9 : 6); double t = real("t"); V3 X = real3("X"); Fn::alive = 0; { Lattice l; Fn *f[9]; int ord[9], cnt = n;
  for (int i = 0; i < n; i++) { int k = perm == 0 ? i : perm == 1 ? n - 1 - i : (i + 1) % n; f[i] = new Fn('a' + k); ord[i] = k; l.addElement(f[i]); }
  EQI("count", l.count(), n); for (int i = -1; i <= n; i++) { bool th = false; GeneralField *g = 0; try { g = l.at(i); } catch (IOexception &e) { th = true; } CHECK("at", i >= 0 && i < n ? !th && g == f[i] : th); }
  V3 e, b; for (int i = 0; i < n; i++) { e = add(e, Fn::val('a' + i, 'E', t, X)); b = add(b, Fn::val('a' + i, 'B', t, X)); } same("sum", l.Field(t, X.v()), e, b); same("again", l.Field(t, X.v()), e, b);
  if (rem > -2) { bool th = false; try { l.remove(rem); } catch (IOexception &e) { th = true; } CHECK("remove-checked", th == !(rem >= 0 && rem < n)); if (!th) { e = sub(e, Fn::val('a' + ord[rem], 'E', t, X)); b = sub(b, Fn::val('a' + ord[rem], 'B', t, X)); cnt--; for (int i = 0; i < cnt; i++) CHECK("kept-order", l.at(i) == f[i < rem ? i : i + 1]); delete f[rem]; } EQI("count2", l.count(), cnt); same("removed", l.Field(t, X.v()), e, b); }
  EQI("alive", Fn::alive, cnt); } EQI("destroyed", Fn::alive, 0); vf_reach("lattice");
}
HARNESS(h_localized) {
  double t = real("t"), t0 = real("t0"), ts = real("shift-t"); V3 X = real3("X"), O = real3("O"), D = real3("D"); Loc a, b(t0, O.v()), c(t0 + ts, add(O, D).v()); CHECK("external", b.is_external());
  same("default", a.Field(t, X.v()), Fn::val('L', 'E', t, X), Fn::val('L', 'B', t, X)); EQI("one", a.n, 1); same("placed", b.Field(t, X.v()), Fn::val('L', 'E', t - t0, sub(X, O)), Fn::val('L', 'B', t - t0, sub(X, O)));
  ElMagField f = b.Field(t, X.v()); same("shifted", c.Field(t + ts, add(X, D).v()), E(f), B(f)); vf_reach("localized");
}
// the elements of the library are placed like this, too
HARNESS(h_elements) {
  int k = vf_choice("element", 0, 3); double t = vf_real("t", -1e-12, 1e-12), t0 = vf_real("t0", -1e-12, 1e-12); V3 X = real3("X"), O = real3("O"); ElMagField f, g;
  if (k == 0) { PlanarUndulator a, b(O.v()); a.Setup(1.5, 0.75, 2); b.Setup(1.5, 0.75, 2); f = b.Field(t, X.v()); g = a.Field(t + t0, sub(X, O).v()); }
  else if (k == 1) { TransverseGradientUndulator a, b(O.v()); a.Setup(1.5, 0.5, 0.25, 0.75, 2); b.Setup(1.5, 0.5, 0.25, 0.75, 2); f = b.Field(t, X.v()); g = a.Field(t + t0, sub(X, O).v()); }
  else if (k == 2) { V3 d = sub(X, O); ASSUME(d.z > 0.0); GaussianWave a, b(t0, O.v()); a.Setup(0.5, complex<double>(1.0, 2.0), 2.0); b.Setup(0.5, complex<double>(1.0, 2.0), 2.0); f = b.Field(t, X.v()); g = a.Field(t - t0, d.v()); }
  else { V3 d = sub(X, O); ASSUME(d.z > 0.0); GaussianWavePacket a(0.0, VectorZero), b(t0, O.v()); a.Setup(0.5, complex<double>(1.0, 2.0), 2.0, 1e-12); b.Setup(0.5, complex<double>(1.0, 2.0), 2.0, 1e-12); f = b.Field(t, X.v()); g = a.Field(t - t0, d.v()); }
  same("placed", f, E(g), B(g)); vf_reach("element");
}
HARNESS(h_fields) {
  V3 e1 = real3("e1"), b1 = real3("b1"), e2 = real3("e2"), b2 = real3("b2"), X = real3("X"); double f = real("f"), t = real("t"); ElMagField a(e1.v(), b1.v()), b(e2.v(), b2.v()), z; same("zero", z, V3(), V3()); CHECK("null", z.isNull()); same("ctor", a, e1, b1);
  same("+", a + b, add(e1, e2), add(b1, b2)); same("-", a - b, sub(e1, e2), sub(b1, b2)); same("*", a * f, mul(e1, f), mul(b1, f)); ElMagField c(a); c += b; same("+=", c, add(e1, e2), add(b1, b2)); c = a; c -= b; same("-=", c, sub(e1, e2), sub(b1, b2)); c = a; c *= f; same("*=", c, mul(e1, f), mul(b1, f)); EQV3("S", V3(a.Poynting()), mul(cross3(e1, b1), 1.0 / MuNull), 1e7); same("kept", a, e1, b1); same("kept2", b, e2, b2);
  HomogeneousField h(e1.v(), b1.v()), h0; same("homogeneous", h.Field(t, X.v()), e1, b1); same("h0", h0.Field(t, X.v()), V3(), V3()); ElMagObs o(t, e1.v(), b1.v()); EQ("obs.t", o.Time(), t); EQV3("obs.E", V3(o.E()), e1); EQV3("obs.B", V3(o.B()), b1); same("obs", o.EB(), e1, b1);
  if (vf_decide(f != 0.0)) { c = a; c /= f; same("/=", c, mul(e1, 1 / f), mul(b1, 1 / f)); same("/", a / f, mul(e1, 1 / f), mul(b1, 1 / f)); } c.Zero(); same("Zero", c, V3(), V3()); bool nz = vf_decide(e1.x == 0.0) && vf_decide(e1.y == 0.0) && vf_decide(e1.z == 0.0) && vf_decide(b1.x == 0.0) && vf_decide(b1.y == 0.0) && vf_decide(b1.z == 0.0); CHECK("isnull", a.isNull() == nz); vf_reach("fields");
}
// ---------------------------------------------------------------- C17, C18
// region of z: 0 before, 1 ramp in, 2 flat, 3 ramp out, 4 behind
static double place(double lam, int N, int reg) { double L = lam * (N + 1), f = vf_real("f", 0.05, 0.95); ASSUME(f >= 0.0); if (reg == 0) { ASSUME(f > 0.0); return -L / 2 - f; } if (reg == 4) return L / 2 + f; ASSUME(f < 1.0); return reg == 1 ? -L / 2 + f * lam : reg == 3 ? L / 2 - lam + f * lam : -L / 2 + lam + f * (L - 2 * lam); }
static double weight(double lam, int N, double z) { double L = lam * (N + 1); if (z < -L / 2 || z >= L / 2) return 0.0; double w = 1.0; if (z < -L / 2 + lam) w *= (z + L / 2) / lam; if (z >= L / 2 - lam) w *= (L / 2 - z) / lam; return w; }
static V3 tgu(double BP, double kx, double mod, double lam, V3 X) { double kz = 2.0 * Pi / lam, ky = std::sqrt(kx * kx + kz * kz), m = BP * (1.0 + mod * std::sin(kz * X.z)), s = std::sin(kz * X.z), c = std::cos(kz * X.z); return V3(m * kx / ky * std::cos(kx * X.x) * std::sinh(ky * X.y) * s, m * s * (std::cosh(kz * X.y) + std::sin(kx * X.x) * std::cosh(ky * X.y)), m * c * (std::sinh(kz * X.y) + kz / ky * std::sin(kx * X.x) * std::sinh(ky * X.y))); }
static void setup(PlanarUndulator &u, double BP, double kx, double mod, double lam, int N) { u.Setup(BP, lam, N); }
static void setup(TransverseGradientUndulator &u, double BP, double kx, double mod, double lam, int N) { u.Setup(BP, kx, mod, lam, N); }
template <class U> static void shape(bool tg) {
  int N = vf_choice("N", 1, DEEP ? 6 : 3), reg = vf_choice("region", 0, 4), pl = vf_choice("placed", 0, 1); if (N == 1 && reg == 2) reg = 1; double BP = real("BP"), lam = realp("lambda"), kx = tg ? vf_real("kx", 0.1, 2) : 0.0, mod = tg ? vf_real("mod", -0.5, 0.5) : 0.0, t = real("t"), x = real("x"), y = real("y"), z = place(lam, N, reg); V3 O; if (pl) O = real3("O"); U u(O.v()), v; U &w = pl ? u : v; setup(w, BP, kx, mod, lam, N);
  EQ("BPeak", w.GetBPeak(), BP); EQ("lambda", w.GetLambdaU(), lam); EQI("N", w.GetNPeriods(), N); EQS("K", w.GetKpeak(), BP * lam * SpeedOfLight / (2.0 * Pi * mecsquared), 1.0); EQS("Krms", sq(w.GetKrms()) * 2.0, sq(w.GetKpeak()), 1.0);
  V3 X(x, y, z); ElMagField f = w.Field(t, add(X, O).v()); EQV3("E", E(f), V3()); if (reg == 0 || reg == 4) { EQV3("outside", B(f), V3()); vf_reach("outside"); return; }
  V3 b = tgu(BP, kx, mod, lam, X); if (!tg) { EQV3("planar", V3(0.0, BP * std::sin(2 * Pi / lam * z) * std::cosh(2 * Pi / lam * y), BP * std::cos(2 * Pi / lam * z) * std::sinh(2 * Pi / lam * y)), tgu(BP, 0, 0, lam, X), 1.0); }
  EQV3("B", B(f), mul(b, weight(lam, N, z)), 1.0); vf_reach(reg == 2 ? "flat" : "ramp");
}
HARNESS(h_planar) { shape<PlanarUndulator>(false); }
HARNESS(h_tgu) { shape<TransverseGradientUndulator>(true); }
HARNESS(h_tgu_plain) {   // without gradient and modulation: the planar undulator
  int N = vf_choice("N", 1, 3), reg = vf_choice("region", 0, 4); double BP = real("BP"), lam = realp("lambda"), t = real("t"), z = place(lam, N, reg); V3 X(real("x"), real("y"), z); TransverseGradientUndulator u; PlanarUndulator p; u.Setup(BP, 0.0, 0.0, lam, N); p.Setup(BP, lam, N); ElMagField f = u.Field(t, X.v()), g = p.Field(t, X.v()); same("planar", f, E(g), B(g)); vf_reach("plain");
}
// Maxwell's equations for the static field in the flat region, where the computed field is differentiated
template <class G> static void maxwell(G f, V3 X, double s) {
  double xx = DERIV([&](double q) { return f(V3(q, X.y, X.z)).x; }, X.x), yx = DERIV([&](double q) { return f(V3(q, X.y, X.z)).y; }, X.x), zx = DERIV([&](double q) { return f(V3(q, X.y, X.z)).z; }, X.x);
  double xy = DERIV([&](double q) { return f(V3(X.x, q, X.z)).x; }, X.y), yy = DERIV([&](double q) { return f(V3(X.x, q, X.z)).y; }, X.y), zy = DERIV([&](double q) { return f(V3(X.x, q, X.z)).z; }, X.y);
  double xz = DERIV([&](double q) { return f(V3(X.x, X.y, q)).x; }, X.z), yz = DERIV([&](double q) { return f(V3(X.x, X.y, q)).y; }, X.z), zz = DERIV([&](double q) { return f(V3(X.x, X.y, q)).z; }, X.z);
  EQS("div", xx + yy + zz, 0.0, s); EQS("curl.x", zy, yz, s); EQS("curl.y", xz, zx, s); EQS("curl.z", yx, xy, s);
}
HARNESS(h_maxwell) {
  int tg = vf_choice("gradient", 0, 1), N = 5; double BP = real("BP"), lam = realp("lambda"), kx = tg ? vf_real("kx", 0.1, 2) : 0.0; V3 X(real("x"), real("y"), vf_real("z", -0.5, 0.5)); ASSUME(X.z > -2.0 * lam && X.z < 2.0 * lam); PlanarUndulator p; TransverseGradientUndulator u; p.Setup(BP, lam, N); u.Setup(BP, kx, 0.0, lam, N);
  double s = vf_symbolic() ? 0.0 : std::fabs(BP) * std::exp(std::fabs(20 * X.y / lam)) / lam;
  maxwell([&](V3 Y) { return tg ? V3(u.Field(0.0, Y.v()).B()) : V3(p.Field(0.0, Y.v()).B()); }, X, s); vf_reach("maxwell");
}
HARNESS(h_gradient) {   // on the mid plane the relative field change per length is kx (small x), the vertical field is sin(kx x)
  int N = 3; double BP = real("BP"), lam = realp("lambda"), kx = vf_real("kx", 0.1, 2), f = vf_real("f", 0.2, 0.8); ASSUME(f > 0.0 && f < 1.0); double z = (f * 2 - 1) * lam; TransverseGradientUndulator u; u.Setup(BP, kx, 0.0, lam, N);
  double d = DERIV([&](double q) { return u.Field(0.0, Vector(q, 0, z)).B().y; }, 0.0), b = u.Field(0.0, Vector(0, 0, z)).B().y; (void)d; EQS("axis", b, BP * std::sin(2 * Pi / lam * z), 1.0); double x = real("x"); EQS("mid", u.Field(0.0, Vector(x, 0, z)).B().y, b * (1.0 + std::sin(kx * x)), 1.0); EQS("mid.x", u.Field(0.0, Vector(x, 0, z)).B().x, 0.0, 1.0); vf_reach("gradient");
}
// ---------------------------------------------------------------- C19
HARNESS(h_hard) {
  V3 Bv = real3("B"), p1 = real3("p1"), n1 = real3("n1"), p2 = real3("p2"), n2 = real3("n2"), X = real3("X"); double t = real("t"); HardEdgeDipole d(Bv.v(), p1.v(), n1.v(), p2.v(), n2.v()), z; EQV3("GetB", V3(d.GetB()), Bv); ElMagField f = d.Field(t, X.v()); EQV3("E", E(f), V3());
  bool in = vf_decide(dot3(sub(X, p1), n1) < 0.0) && vf_decide(dot3(sub(X, p2), n2) < 0.0); bool edge = vf_decide(dot3(sub(X, p1), n1) == 0.0) || vf_decide(dot3(sub(X, p2), n2) == 0.0); if (!edge) EQV3("B", B(f), in ? Bv : V3()); same("default", z.Field(t, X.v()), V3(), V3()); vf_reach(in ? "inside" : "outside");
}
HARNESS(h_soft) {
  V3 Bv = real3("B"), p1 = real3("p1"), n1 = real3("n1"), p2 = real3("p2"), n2 = real3("n2"), X = real3("X"); double t = real("t"), t1 = realp("t1"), t2 = realp("t2"); SoftEdgeDipole d(Bv.v(), p1.v(), n1.v(), t1, p2.v(), n2.v(), t2), e(Bv.v(), p2.v(), n2.v(), t2, p1.v(), n1.v(), t1), z; EQV3("GetB", V3(d.GetB()), Bv); ElMagField f = d.Field(t, X.v()), g = e.Field(t, X.v()); EQV3("E", E(f), V3()); EQV3("symmetric", B(g), B(f), 1.0);
  double a1 = std::atan(2.0 * dot3(sub(X, p1), n1) / t1) / Pi, a2 = std::atan(2.0 * dot3(sub(X, p2), n2) / t2) / Pi; double w = (0.5 - a1) - (0.5 + a2); if (vf_decide(w < 0.0)) w = 0.0; EQV3("B", B(f), mul(Bv, w), 1.0); same("default", z.Field(t, X.v()), V3(), V3()); vf_reach("soft");
}
HARNESS(h_soft_profile) {   // a long magnet between z=-500 and z=500: full field in the middle, half of it at the faces, one and three quarters at half the transition length, nothing far outside
  int k = vf_choice("place", 0, 9), sh = vf_choice("side", 0, 1); double w[10] = {-400, -10, -0.5, 0, 0.5, 10, 300, 1e3, 1e5, 1e7}, want[10] = {1, 0.98408, 0.75, 0.5, 0.25, 0.015905, 0, 0, 0, 0}; double l = 0.2; V3 Bv = real3("B"), X(real("x"), real("y"), (sh ? -1 : 1) * (500 + w[k] * l)); SoftEdgeDipole d(Bv.v(), Vector(0, 0, -500), Vector(0, 0, -1), l, Vector(0, 0, 500), Vector(0, 0, 1), l); V3 b = B(d.Field(0.0, X.v())); double u = Bv.x * 0 + 1; (void)u;
  double m = std::fabs(Bv.x); ASSUME(m > 0.0); NEAR("profile", b.x, Bv.x * want[k], m, 2e-3); vf_reach("profile");
}
HARNESS(h_soft_wedge) {   // outside of both faces of a wedge there is no field, either
  int k = vf_choice("how", 0, 3); double d = 1.0 + k * k * 5.0; SoftEdgeDipole w(Vector(0, 1, 0), VectorZero, Vector(0, 0, -1), 0.01, VectorZero, Vector(1, 0, 0), 0.01); NEAR("none", w.Field(0.0, Vector(d, 0, -d)).B().y, 0.0, 1.0, 0.02); vf_reach("wedge");
}
// ---------------------------------------------------------------- C20
static void wave(bool packet) {
  double lam = realp("lambda"), zR = realp("zR"), tau = realp("tau"), Ar = real("Ar"), Ai = real("Ai"), t = vf_real("t", -1e-9, 1e-9), x = real("x"), y = real("y"); int zc = vf_choice("z", 0, 2); double z = zc == 1 ? 0.0 : vf_real("zz", 0.1, 2.0); if (zc != 1) ASSUME(z > 0.0); if (zc == 0) z = -z;
  int put = vf_choice("placed", 0, 1); double t0 = put ? vf_real("t0", -1e-9, 1e-9) : 0.0; V3 O = put ? V3(real("ox"), real("oy"), 0.5) : V3();
  ElMagField f; if (packet) { GaussianWavePacket w(t0, O.v()); w.Setup(lam, complex<double>(Ar, Ai), zR, tau); f = w.Field(t + t0, add(V3(x, y, z), O).v()); EQ("lambda", w.getWavelength(), lam); } else { GaussianWave w(t0, O.v()); w.Setup(lam, complex<double>(Ar, Ai), zR); f = w.Field(t + t0, add(V3(x, y, z), O).v()); EQ("lambda", w.getWavelength(), lam); }
  V3 e = E(f), b = B(f); EQS("E.y", e.y, 0.0, 1.0); EQS("E.z", e.z, 0.0, 1.0); EQS("B.x", b.x, 0.0, 1.0); EQS("B.z", b.z, 0.0, 1.0); EQS("ratio", b.y * SpeedOfLight, e.x, 1.0);
  // waist w0^2 = lambda zR / pi, spread with the Rayleigh length, wavefronts with curvature radius R = z + zR^2/z
  double w2 = lam * zR / Pi * (1.0 + z * z / (zR * zR)), r2 = x * x + y * y, k = 2 * Pi / lam, curv = z / (z * z + zR * zR), ph = k * SpeedOfLight * t - k * z - k * r2 * curv / 2.0, ex = r2 / w2; if (packet) ex += sq((t - z / SpeedOfLight) / tau); double amp = 1.0 / std::sqrt(1.0 + z * z / (zR * zR));
  EQS("field", e.x, amp * std::exp(-ex) * (Ar * std::cos(ph) - Ai * std::sin(ph)), 1.0); vf_reach("wave");
}
HARNESS(h_wave) { wave(false); }
HARNESS(h_packet) { wave(true); }
HARNESS(h_wave_focus) {
  int p = vf_choice("packet", 0, 1); double lam = realp("lambda"), zR = realp("zR"), Ar = real("Ar"), Ai = real("Ai"); GaussianWave w; GaussianWavePacket q; w.Setup(lam, complex<double>(Ar, Ai), zR); q.Setup(lam, complex<double>(Ar, Ai), zR, realp("tau")); V3 e = p ? E(q.Field(0.0, VectorZero)) : E(w.Field(0.0, VectorZero)); EQS("peak", e.x, Ar, 1.0);
  GaussianWave z1; GaussianWavePacket z2; double t = real("t"); V3 X = real3("X"); ASSUME(X.z > 0.0); same("quiet", p ? z2.Field(t, X.v()) : z1.Field(t, X.v()), V3(), V3()); vf_reach("focus");
}
