// Source screens: reading of the file and the Kirchhoff sum. Oracle: the Kirchhoff integral with outgoing normal n for waves running along -n,
// U(X,t) = sum dA/(4 pi) [ -U (R.n)/R^3 + dU/dt (1 - R.n/R)/(R c) ] at the retarded time of each cell, U without its component along n.
#include "obskit.h"
#include "source_screen.h"
static int K, L, M; static double T0c, DT, TX, TY; static V3 EX, EY, NN; static double AX, AY;
static int off(int i, int n) { return i - n / 2; }
static void source_file(const char *fn, int tag, V3 org, V3 n, V3 dx, V3 dy, double t0, int withd) {
  long d[4] = {4, 3, 0, 0}; FioSet *s = fio_make(fn, "Screen", 0, 2, d); V3 v[4] = {org, n, dx, dy}; for (int i = 0; i < 4; i++) { s->d[3 * i] = v[i].x; s->d[3 * i + 1] = v[i].y; s->d[3 * i + 2] = v[i].z; }
  fio_put(s, "Nx", K); fio_put(s, "Ny", L); fio_put(s, "NOTS", M); fio_put(s, "t0", t0); fio_put(s, "dt", DT); if (withd & 1) fio_put(s, "dtx", TX); if (withd & 2) fio_put(s, "dty", TY);
  d[0] = K; d[1] = L; d[2] = M; d[3] = 6; s = fio_make(fn, "ElMagField", 0, 4, d); for (int i = 0; i < K * L * M; i++) for (int c = 0; c < 6; c++) s->d[6 * i + c] = cval(tag, i, c);
}
static V3 trans(V3 a) { return sub(a, mul(NN, dot3(a, NN))); }
static double VAL[4 * 3 * 4 * 6]; static bool given = false;
static void near3(const char *id, V3 a, V3 b) { char c[16]; nm(c, id, ".x"); NEAR(c, a.x, b.x, 1.0, 1e-9); nm(c, id, ".y"); NEAR(c, a.y, b.y, 1.0, 1e-9); nm(c, id, ".z"); NEAR(c, a.z, b.z, 1.0, 1e-9); }
static V3 smp(int cell, int k, int w) { return k < 0 || k >= M ? V3() : trans(given ? V3(VAL[6 * (cell * M + k) + w], VAL[6 * (cell * M + k) + w + 1], VAL[6 * (cell * M + k) + w + 2]) : cont(1, cell * M + k, w)); }
static V3 dif(int cell, int k, int w) { if (k < 0 || k >= M) return V3(); if (k == 0) return mul(sub(smp(cell, 1, w), smp(cell, 0, w)), 1 / DT); if (k == M - 1) return mul(sub(smp(cell, k, w), smp(cell, k - 1, w)), 1 / DT); return mul(sub(smp(cell, k + 1, w), smp(cell, k - 1, w)), 0.5 / DT); }
// contribution of a cell at retarded time tau (in samples from its first one), source to observer R
static void contribute(int cell, double tau, V3 R, double r, V3 &E, V3 &B) {
  if (!(tau >= 0.0) || !(tau <= (double)(M - 1))) return; int k = 0; while (k < M - 1 && tau >= (double)(k + 1)) k++; double f = tau - k, c = dot3(R, NN) / r, g = AX * AY / (4.0 * Pi);
  for (int w = 0; w < 6; w += 3) { V3 u = add(mul(smp(cell, k, w), 1.0 - f), mul(smp(cell, k + 1, w), f)), d = add(mul(dif(cell, k, w), 1.0 - f), mul(dif(cell, k + 1, w), f)), t = add(mul(u, -c / (r * r) * g), mul(d, (1.0 - c) / (r * C0) * g)); if (w) B = add(B, t); else E = add(E, t); }
}
static V3 cellpos(int ix, int iy) { return add(mul(EX, AX * off(ix, K)), mul(EY, AY * off(iy, L))); }
static double celltime(int ix, int iy) { return TX * off(ix, K) + TY * off(iy, L); }
static void geometry(bool rot) {
  if (rot) { Frame f = frame("rot"); EX = f.a; EY = f.b; NN = f.c; } else { static const double R[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {-0.6, 0, 0.8, 0, 1, 0, -0.8, 0, -0.6}, {0.48, 0.6, 0.64, -0.8, 0.6, 0, -0.384, -0.512, 0.768}}; int k = vf_choice("orientation", 0, 2); EX = V3(R[k][0], R[k][1], R[k][2]); EY = V3(R[k][3], R[k][4], R[k][5]); NN = V3(R[k][6], R[k][7], R[k][8]); }
  NN = mul(NN, vf_choice("flip", 0, 1) ? 1.0 : -1.0); DT = realp("dt"); TX = real("dtx"); TY = real("dty"); AX = realp("dx"); AY = realp("dy");
}
static V3 unit(const char *a, const char *b) { double t = real(a), w = real(b), c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t), q = (1 - w * w) / (1 + w * w), r = 2 * w / (1 + w * w); return add(add(mul(EX, c * q), mul(EY, s * q)), mul(NN, r)); }
static double between(const char *name, int wide = 0) { char b[16]; nm(b, name, ".k"); int k = vf_choice(b, -1 - wide, M - 1 + wide); nm(b, name, ".f"); double f = vf_real(b, 0.1, 0.9); ASSUME(f > 1e-3); ASSUME(f < 0.999); return k + f; }   // retarded time in samples, not at a sample instant, where rounding decides
// one cell, any place and time
HARNESS(h_cell) {
  K = L = 1; M = vf_choice("N", 2, 3); geometry(vf_choice("rotated", 0, 1)); V3 P = real3("P"), u = unit("u", "v"); double R = realp("R"), st = real("start"), tau = between("tau", 1); fio_reset(); source_file("s.h5", 1, real3("recorded"), mul(NN, realp("nn")), mul(EX, AX), mul(EY, AY), real("t0"), 3);
  SourceScreen s("s.h5", P.v(), st); CHECK("external", s.is_external()); double t = st + tau * DT + R / C0; V3 E, B; contribute(0, tau, mul(u, R), R, E, B); ElMagField F = s.Field(t, add(P, mul(u, R)).v()); EQV3("E", V3(F.E()), E, 1.0); EQV3("B", V3(F.B()), B, 1.0); vf_reach(tau < 0.0 ? "before" : tau > M - 1 ? "after" : "inside");
}
// two cells: the triangle of the cells and the observer by two rational angles, the retarded times at both cells are inputs, the delay per cell follows
HARNESS(h_grid) {
  int ax = vf_choice("axis", 0, 1), c0 = vf_choice("near", 0, 1); K = ax ? 1 : 2; L = ax ? 2 : 1; M = vf_choice("N", 2, 2 + DEEP); geometry(DEEP && vf_choice("rotated", 0, 1)); double st = real("start"), k = realp("k"), a = vf_real("a", 1e-3, 1e3), b = vf_real("b", 1e-3, 1e3), sa = 2 * a / (1 + a * a), ca = (1 - a * a) / (1 + a * a), sb = 2 * b / (1 + b * b), cb = (1 - b * b) / (1 + b * b), side = k * (sa * cb + ca * sb), R = k * sb, r = k * sa, w = real("w"), sw = 2 * w / (1 + w * w), cw = (1 - w * w) / (1 + w * w); ASSUME(a > 0.0); ASSUME(b > 0.0); ASSUME(a * b < 1.0); V3 P = real3("P");
  // at the near cell (side opposite: r) the angle is a, at the other one b
  (ax ? AY : AX) = side; V3 D = ax ? EY : EX, Q = add(mul(ax ? EX : EY, cw), mul(NN, sw)); if (c0 == 1) D = mul(D, -1.0); double tau = between("tau0"), ta = between("tau1"); double TD = (c0 ? -1.0 : 1.0) * ((tau - ta) * DT + (R - r) / C0); (ax ? TY : TX) = TD;
  fio_reset(); source_file("s.h5", 1, V3(1, 2, 3), NN, mul(EX, AX), mul(EY, AY), 5.0, 3); SourceScreen s("s.h5", P.v(), st); V3 rel = add(mul(D, R * ca), mul(Q, R * sa)), X = add(cellpos(ax ? 0 : c0, ax ? c0 : 0), rel); double t = celltime(ax ? 0 : c0, ax ? c0 : 0) + tau * DT + R / C0; V3 E, B; contribute(c0, tau, rel, R, E, B); contribute(1 - c0, ta, sub(rel, mul(D, side)), r, E, B);
  ElMagField F = s.Field(t + st, add(P, X).v()); EQV3("E", V3(F.E()), E, 1.0); EQV3("B", V3(F.B()), B, 1.0); vf_reach("grid");
}
// larger grids with numbers: every cell with its own samples, place and delay
HARNESS(h_layout) {
  K = vf_choice("Nx", 1, 3 + DEEP); L = vf_choice("Ny", 1, 3); M = vf_choice("N", 2, 4); int k = vf_choice("orientation", 0, 1), when = vf_choice("when", 0, 2); EX = k ? V3(0, 1, 0) : V3(1, 0, 0); EY = k ? V3(0, 0, 1) : V3(0, 1, 0); NN = k ? V3(-1, 0, 0) : V3(0, 0, -1); AX = 0.25; AY = 0.5; DT = 1e-9; TX = 0.27e-9; TY = -0.41e-9; V3 P(1, -2, 0.5), X = add(add(mul(NN, -2.0), mul(EX, 0.3)), mul(EY, -0.2)); double t = 7.1e-9 + when * 0.9e-9; 
  int have = K == 2 && L == 2 && M == 2 && !k ? vf_choice("delays", 0, 3) : 3; fio_reset(); source_file("s.h5", 1, V3(1, 2, 3), NN, mul(EX, AX), mul(EY, AY), 5.0, have); if (!(have & 1)) TX = 0; if (!(have & 2)) TY = 0; given = true; char nb[8] = "v000"; FioSet *fs = fio_set("s.h5", "ElMagField"); for (int i = 0; i < 6 * K * L * M; i++) { nb[1] = '0' + i / 100; nb[2] = '0' + i / 10 % 10; nb[3] = '0' + i % 10; VAL[i] = fs->d[i] = vf_real(nb, -1, 1); }
  SourceScreen s("s.h5", P.v(), 0.0); V3 E, B; for (int c = 0; c < K * L; c++) { V3 R = sub(X, cellpos(c / L, c % L)); double r = len3(R), tau = (t - r / C0 - celltime(c / L, c % L)) / DT; contribute(c, tau, R, r, E, B); } ElMagField F = s.Field(t, add(P, X).v()); near3("E", V3(F.E()), E); near3("B", V3(F.B()), B); vf_reach("layout");
}
// the two edge vectors are made perpendicular to the normal and to each other, keeping their lengths; the observer is above one cell
HARNESS(h_skew) {
  int ax = vf_choice("axis", 0, 1); K = ax ? 1 : 2; L = ax ? 2 : 1; M = 2; geometry(false); double w = vf_real("w", 1e-3, 0.999), side = 6 * w / (1 - w * w), r = 3 * (1 + w * w) / (1 - w * w), p = vf_choice("tiltx", 0, 1) * 0.75, q = vf_choice("skew", -1, 1) * 0.75; (ax ? AY : AX) = side; V3 dx = mul(add(EX, mul(NN, p)), AX / (p > 0 ? 1.25 : 1.0)), dy = mul(add(EY, mul(EX, q)), AY / (q != 0 ? 1.25 : 1.0)); double tau = between("tau0"), ta = between("tau1"); ASSUME(w > 0.001); ASSUME(w < 0.999); (ax ? TY : TX) = (tau - ta) * DT + (3.0 - r) / C0;
  fio_reset(); source_file("s.h5", 1, V3(), mul(NN, 2.0), dx, dy, 0.0, 3); SourceScreen s("s.h5", VectorZero, 0.0); V3 X = add(cellpos(0, 0), mul(NN, -3.0)), E, B; double t = celltime(0, 0) + tau * DT + 3.0 / C0; contribute(0, tau, mul(NN, -3.0), 3.0, E, B); contribute(1, ta, sub(mul(NN, -3.0), mul(ax ? EY : EX, side)), r, E, B); ElMagField F = s.Field(t, X.v()); EQV3("E", V3(F.E()), E, 1.0); EQV3("B", V3(F.B()), B, 1.0); vf_reach("skew");
}
// recorded by a screen and read back: same energy flow, cells and delays in the same place
HARNESS(h_replay) {
  K = vf_choice("Nx", 1, 2); L = vf_choice("Ny", 1, 2); M = vf_choice("N", 2, 3); int k = vf_choice("orientation", 0, 2); static const double R[3][6] = {{1, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 1}, {0, 0, 1, 0, -1, 0}}; EX = V3(R[k][0], R[k][1], R[k][2]); EY = V3(R[k][3], R[k][4], R[k][5]); NN = mul(cross3(EX, EY), -1.0); DT = realp("dt"); TX = 0.375 * DT; TY = -0.625 * DT; AX = realp("dx"); AY = realp("dy"); V3 O = real3("O"); double t0 = real("t0"); fio_reset();
  { ScreenObserver<Beam> o("s.h5", O.v(), mul(EX, AX).v(), mul(EY, AY).v(), K, L, t0, DT, TX, TY, M); for (int k = 0; k < K * L * M; k++) o.setField(k / (L * M), k / M % L, k % M, cfield(1, k)); o.generateOutput(); }
  SourceScreen s("s.h5", O.v(), t0); EQI("size", s.getBufferSize(), 6L * K * L * M); double W = 0; for (int c = 0; c < K * L; c++) { V3 S; for (int k = 0; k < M; k++) S = add(S, V3(ElMagField(smp(c, k, 0).v(), smp(c, k, 3).v()).Poynting())); S = mul(S, DT); EQV3("flow", V3(s.Poynting(c / L, c % L)), S, 1.0); W -= dot3(S, NN) * AX * AY; } EQS("energy", s.totalEnergy(), W, 1.0);
  vf_reach("replay");
}
// incomplete or inconsistent files
HARNESS(h_bad) {
  K = 2; L = 1; M = vf_choice("N", 1, 2); EX = V3(1, 0, 0); EY = V3(0, 1, 0); NN = V3(0, 0, -1); DT = 0.5; TX = TY = 0; int bad = vf_choice("fault", -2, 11); fio_reset(); source_file("s.h5", 1, V3(), NN, EX, EY, 0, bad == -1 ? 0 : 3); FioSet *g = fio_set("s.h5", "Screen"), *f = fio_set("s.h5", "ElMagField"); const char *at[4] = {"Nx", "Ny", "NOTS", "dt"};
  if (bad >= 0 && bad < 4) { FioAttr *a = fio_attr(g, at[bad]); a->name[0] = '?'; } if (bad == 4) g->name[0] = '?'; if (bad == 5) f->name[0] = '?'; if (bad >= 6 && bad < 10) f->dim[bad - 6] += 1; if (bad == 10) f->rank = 3;
  bool th = false; try { SourceScreen s(bad == 11 ? "x.h5" : "s.h5", VectorZero, 0.0); } catch (IOexception &e) { th = true; } CHECK("rejected", th == (bad >= 0 || M < 2)); vf_reach(th ? "rejected" : "accepted");
}
