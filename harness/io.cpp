#include "beamkit.h"
// bunch of n particles whose current coordinates are arbitrary
static void setcur(ChargedParticle *p, const char *tag, int i, double *t = 0) { char c[24]; pn(tag, i); strcpy(c, NB); int l = strlen(c); c[l + 1] = 0; c[l] = 't'; double tt = vf_real(c, 0, 1e-9); c[l] = 'x'; V3 X = real3(c); c[l] = 'p'; V3 P = real3(c); c[l] = 'a'; V3 A = real3(c); p->setCurrentPoint(tt, X.v(), P.v(), A.v()); }
static ChargedParticle *simplep(int i, double q = 0) { char b[24]; pn("q", i); if (q == 0) q = vf_real(NB, -5, 5); pn("m", i); double m = vf_real(NB, 0.5, 3); ASSUME(m > 0.0); ChargedParticle *p = new ChargedParticle(q, m); setcur(p, "s", i); return p; }
static Bunch *simpleb(int n, int base = 0) { Bunch *b = new Bunch(); for (int i = 0; i < n; i++) b->Add(simplep(base + i)); return b; }
static double col(FioSdds *t, const char *n, int r) { FioCol *c = fio_col(t, n); CHECK("column", c != 0); if (!c) return 0; CHECK("column-set", c->set[r] == 1); return c->v[r]; }
static double sq(double a) { return a * a; }
// ---------------------------------------------------------------- C28
struct Stat { double t, gamma; V3 X, P, var; double dvar, davg, bre, bim; };
static Stat stat(Bunch *b, double f) { Stat s; int n = b->getNOP(); s.t = s.gamma = s.dvar = s.davg = s.bre = s.bim = 0; for (int i = 0; i < n; i++) { ChargedParticle *p = b->getParticle(i); s.t += p->getTime(); s.X = add(s.X, V3(p->getPosition())); V3 P(p->getMomentum()); s.P = add(s.P, P); s.gamma += std::sqrt(1.0 + dot3(P, P)); s.davg += len3(P); double a = 2.0 * Pi * f * p->getPosition().z / SpeedOfLight; s.bre += std::cos(a); s.bim += std::sin(a); }
  s.t /= n; s.X = mul(s.X, 1.0 / n); s.P = mul(s.P, 1.0 / n); s.gamma /= n; s.davg /= n; s.bre /= n; s.bim /= n;
  for (int i = 0; i < n; i++) { V3 d = sub(V3(b->getParticle(i)->getPosition()), s.X); s.var = add(s.var, V3(d.x * d.x, d.y * d.y, d.z * d.z)); s.dvar += sq(len3(V3(b->getParticle(i)->getMomentum())) - s.davg); } s.var = mul(s.var, 1.0 / n); s.dvar /= n; return s; }
static void check_row(FioSdds *t, int r, const Stat &s, bool bf) {
  EQ("t", col(t, "t", r), s.t); EQV3("av", V3(col(t, "x_av", r), col(t, "y_av", r), col(t, "z_av", r)), s.X, 1.0); EQV3("bg", V3(col(t, "bgx_av", r), col(t, "bgy_av", r), col(t, "bgz_av", r)), s.P, 1.0); EQ("gamma", col(t, "gamma", r), s.gamma);
  V3 rms(col(t, "x_rms", r), col(t, "y_rms", r), col(t, "z_rms", r)); CHECK("rms-sign", rms.x >= 0.0 && rms.y >= 0.0 && rms.z >= 0.0); EQV3("rms", V3(sq(rms.x), sq(rms.y), sq(rms.z)), s.var, 1.0);
  double d = col(t, "delta", r); CHECK("delta-sign", d >= 0.0); EQS("delta", sq(d) * sq(s.davg), s.dvar, 1.0); double B = col(t, "BF", r); CHECK("bf-sign", B >= 0.0); EQS("bf", B * B, bf ? sq(s.bre) + sq(s.bim) : 0.0, 1.0); }
HARNESS(h_paramlog) {
  fio_reset(); int n = vf_choice("n", 1, 2), upd = vf_choice("updates", 0, 3), bf = vf_choice("bunching", 0, 1); if (n == 2 && upd > 1) upd = 2; double fr = vf_real("freq", 1e8, 1e9); Bunch *b = simpleb(n); ParameterLogger<Bunch> l(b, "par.sdds", 3); if (bf) l.record_bunching(fr); Stat s[4]; double q = 0; for (int i = 0; i < n; i++) q += b->getParticle(i)->getCharge();
  for (int k = 0; k < upd; k++) { if (k) for (int i = 0; i < n; i++) setcur(b->getParticle(i), k == 1 ? "k" : "l", i); s[k] = stat(b, fr); ASSUME(s[k].davg > 0.0); l.update(); }
  if (vf_choice("later", 0, 1)) for (int i = 0; i < n; i++) setcur(b->getParticle(i), "z", i);   // the beam moves on before the file is written
  EQI("written", l.WriteData(), 0); FioSdds *t = fio_table("par.sdds"); CHECK("file", t && t->written && t->terminated); EQI("rows", t->rows, upd);
  FioPar *a = fio_par(t, "NumberTimeSteps"), *c = fio_par(t, "NumberParticles"), *d = fio_par(t, "TotalCharge"), *e = fio_par(t, "BunchingFrequency"); CHECK("pars", a && c && d && a->set == 1 && c->set == 1 && d->set == 1); EQ("nots", a->v, upd); EQ("nop", c->v, n); EQS("charge", d->v, q, 1e-30); CHECK("freq-present", (e != 0) == (bf != 0)); if (bf) EQ("freq", e->v, fr);
  for (int k = 0; k < upd; k++) check_row(t, k, s[k], bf != 0);
  vf_reach("paramlog");
}
// long recordings: every state in its place, for all three loggers
HARNESS(h_manyrecords) {
  fio_reset(); int upd = vf_choice("updates", 4, S(9, 17)), n = vf_choice("n", 1, 2); Bunch *b = new Bunch(); for (int i = 0; i < n; i++) { ChargedParticle *p = new ChargedParticle(1.0, 1.0); p->setCurrentPoint(1e-10 * i, Vector(0.1, 0, 0), Vector(0, 0, 1.0 + i), VectorZero); b->Add(p); } Beam m; m.Add(b); ParameterLogger<Bunch> l(b, "par.sdds", 1); TrajectoryLogger<Bunch> t(b, "traj.h5", 1, n); ProbeLogger<Beam> o(&m, "probe.h5", 1, n); double rec[20][2][16]; Stat s[20];
  for (int k = 0; k < upd; k++) { for (int i = 0; i < n; i++) { ChargedParticle *p = b->getParticle(i); char c[16]; if (k) { pn("s", 10 * i + k); if (k >= 10) NB[0] = (char)(115 + k / 10); p->setCurrentPoint(vf_real(NB, 0, 1e-9), Vector(0.001 * k, 0.002 * i, 0.5 * k * k)+Vector(0, 0, 0.1 * i), Vector(0, 0, 1.0 + k + i), VectorZero); } p->E_current = VectorZero; p->B_current = VectorZero; p->bufferProbe(rec[k][i]); }
    s[k] = stat(b, 1e9); l.update(); t.update(); o.update(); }
  EQI("written", l.WriteData() + t.WriteData() + o.WriteData(), 0); FioSdds *a = fio_table("par.sdds"); FioSet *d = fio_set("traj.h5", "Trajectories"), *e = fio_set("probe.h5", "Probe"); CHECK("file", a && d && e && a->rows == upd && d->dim[0] == upd && e->dim[0] == upd);
  for (int k = 0; k < upd; k++) { EQ("t", col(a, "t", k), s[k].t); EQ("x", col(a, "x_av", k), s[k].X.x); EQ("z", col(a, "z_av", k), s[k].X.z); EQ("bgz", col(a, "bgz_av", k), s[k].P.z); EQ("gamma", col(a, "gamma", k), s[k].gamma);
    for (int i = 0; i < n; i++) { for (int j = 0; j < 6; j++) EQ("trajectory", d->d[(k * n + i) * 6 + j], rec[k][i][j + 1]); for (int j = 0; j < 16; j++) EQ("probe", e->d[(k * n + i) * 16 + j], rec[k][i][j]); } }
  vf_reach("many");
}
HARNESS(h_trajlog) {
  fio_reset(); int n = vf_choice("n", 0, 3), lim = vf_choice("limit", 0, 4), upd = vf_choice("updates", 0, 2); Bunch *b = simpleb(n); TrajectoryLogger<Bunch> *l = new TrajectoryLogger<Bunch>(b, "traj.h5", 2, lim); int want = n < lim ? n : lim; double rec[3][4][6];
  for (int k = 0; k < upd; k++) { for (int i = 0; i < n; i++) { if (k) setcur(b->getParticle(i), "k", i); Vector X = b->getParticle(i)->getPosition(), P = b->getParticle(i)->getMomentum(); double *r = rec[k][i]; r[0] = X.x; r[1] = X.y; r[2] = X.z; r[3] = P.x; r[4] = P.y; r[5] = P.z; } l->update(); }
  for (int i = 0; i < n; i++) setcur(b->getParticle(i), "z", i);
  EQI("written", l->WriteData(), 0); FioSet *d = fio_set("traj.h5", "Trajectories"); CHECK("set", d != 0 && d->written == 1 && d->rank == 3 && !d->isint); EQI("NOTS", d->dim[0], upd); EQI("NOP", d->dim[1], want); EQI("six", d->dim[2], 6);
  FioAttr *t = fio_attr(d, "NOTS"), *p = fio_attr(d, "NOP"); CHECK("attrs", t && p && t->iv == upd && p->iv == want);
  for (int k = 0; k < upd; k++) for (int i = 0; i < want; i++) for (int j = 0; j < 6; j++) EQ("record", d->d[(k * want + i) * 6 + j], rec[k][i][j]);
  CHECK("closed", fio_file("traj.h5") >= 0 && fio_files[fio_file("traj.h5")].open == 0); delete l; vf_reach("trajlog");
}
// which steps are recorded: 0, n, 2n, ... - decided for every step number
HARNESS(h_requested) {
  int kind = vf_choice("kind", 0, 2), mult = vf_choice("multiple", 0, 1); static const int NN[20] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 100, 1000, 4096, 65536, 1000003, 2147483647}; int n = mult ? vf_int("every", 0, 2147483647) : NN[vf_choice("every-no", 0, 19)], k = vf_int("step", 0, 2147483647); Bunch *b = simpleb(1); Beam m; m.Add(b); Logger *l; 
  if (kind == 0) l = new ParameterLogger<Bunch>(b, "a", n); else if (kind == 1) l = new TrajectoryLogger<Bunch>(b, "a", n, 1); else l = new ProbeLogger<Beam>(&m, "a", n, 1);
  CHECK("start", l->log_requested(0) == (n > 0)); bool r = l->log_requested(k);
  if (mult) { int q = vf_int("q", 0, 2147483647); ASSUME(n > 0 && (long)q * (long)n == (long)k); CHECK("multiple", r); }
  else { int q = vf_int("q", 0, 2147483647), e = vf_int("rem", 0, 2147483647); ASSUME(n == 0 || (e > 0 && e < n && (long)q * (long)n + e == (long)k)); CHECK("other", !r); }
  vf_reach("requested");
}
// ---------------------------------------------------------------- C24
static void check_particle_row(FioSdds *t, int r, ChargedParticle *p) {
  Vector X = p->getPosition(), P = p->getMomentum(); EQ("t", col(t, "t", r), p->getTime()); EQV3("X", V3(col(t, "x", r), col(t, "y", r), col(t, "z", r)), V3(X)); EQV3("P", V3(col(t, "px", r), col(t, "py", r), col(t, "pz", r)), V3(P));
  double pp = col(t, "p", r), g = col(t, "gamma", r); CHECK("p-sign", pp >= 0.0); EQ("p", sq(pp), dot3(V3(P), V3(P))); CHECK("g-sign", g >= 0.0); EQ("gamma", sq(g), 1.0 + dot3(V3(P), V3(P))); EQS("xp", col(t, "xp", r) * P.z, P.x, 1.0); EQS("yp", col(t, "yp", r) * P.z, P.y, 1.0); }
HARNESS(h_watch_sdds) {
  fio_reset(); Beam m; int nb = vf_choice("bunches", 0, S(3, 4)), tot = 0; double q = 0; ChargedParticle *p[16];
  for (int k = 0; k < nb; k++) { int n = vf_choice(k ? k > 1 ? k > 2 ? "n3" : "n2" : "n1" : "n0", 0, 2); Bunch *b = simpleb(n, tot); for (int i = 0; i < n; i++) { p[tot] = b->getParticle(i); ASSUME(p[tot]->getMomentum().z > 0.0); q += p[tot++]->getCharge(); } m.Add(b); }
  EQI("ok", m.WriteWatchPointSDDS("w.sdds"), 0); FioSdds *t = fio_table("w.sdds"); CHECK("file", t && t->written && t->terminated); EQI("rows", t->rows, tot); FioPar *a = fio_par(t, "NumberOfParticles"), *c = fio_par(t, "Charge"); CHECK("pars", a && c && a->set == 1 && c->set == 1); EQ("nop", a->v, tot); EQ("charge", c->v, q); CHECK("e", rel(ElementaryCharge, 1.602176634e-19, 1e-6));
  for (int i = 0; i < tot; i++) check_particle_row(t, i, p[i]); vf_reach("watch");
}
HARNESS(h_watch_bunch) {
  fio_reset(); int n = vf_choice("n", 0, 3); Bunch *b = simpleb(n); for (int i = 0; i < n; i++) ASSUME(b->getParticle(i)->getMomentum().z > 0.0); EQI("ok", b->WriteWatchPointSDDS("w.sdds"), 0); FioSdds *t = fio_table("w.sdds"); CHECK("file", t && t->written && t->terminated); EQI("rows", t->rows, n); FioPar *a = fio_par(t, "NumberOfParticles"); CHECK("pars", a && a->set == 1); EQ("nop", a->v, n); for (int i = 0; i < n; i++) check_particle_row(t, i, b->getParticle(i)); vf_reach("watchb");
}
HARNESS(h_watch_hdf5) {
  fio_reset(); Beam m; int nb = vf_choice("bunches", 0, S(3, 4)), tot = 0; ChargedParticle *p[16];
  for (int k = 0; k < nb; k++) { int n = vf_choice(k ? k > 1 ? k > 2 ? "n3" : "n2" : "n1" : "n0", 0, 2); Bunch *b = simpleb(n, tot); for (int i = 0; i < n; i++) p[tot++] = b->getParticle(i); m.Add(b); }
  EQI("count", m.WriteWatchPointHDF5("w.h5"), tot); FioSet *d = fio_set("w.h5", "electrons"); CHECK("set", d && d->written == 1 && d->rank == 2 && !d->isint); EQI("rows", d->dim[0], tot); EQI("six", d->dim[1], 6); CHECK("closed", fio_files[fio_file("w.h5")].open == 0);
  for (int i = 0; i < tot; i++) { double *r = d->d + 6 * i; EQV3("X", V3(r[0], r[1], r[2]), V3(p[i]->getPosition())); EQV3("P", V3(r[3], r[4], r[5]), V3(p[i]->getMomentum())); } vf_reach("watchh");
}
// reading particles
HARNESS(h_read) {
  fio_reset(); int n = vf_choice("n", 1, S(2, 3)), ax = vf_choice("axis", 0, 3); double c[6][4]; static const char *N[6] = {"x", "xp", "y", "yp", "p", "t"}; char b[8]; double Q = vf_real("Q", 0.1e-9, 1e-9), tm = 0; ASSUME(Q > 0.0);
  for (int k = 0; k < 6; k++) for (int i = 0; i < n; i++) { c[k][i] = k == 5 ? vf_real(idx(b, N[k], i), 0, 1e-12) : vf_real(idx(b, N[k], i), -1, 1); if (k == 4) ASSUME(c[k][i] > 0.0); }
  for (int i = 0; i < n; i++) tm += c[5][i]; tm /= n;
  FioSdds *t = fio_mktable("in.sdds", n); for (int k = 0; k < 6; k++) fio_mkcol(t, N[k], c[k]); fio_mkpar(t, "Particles", SDDS_LONG, n); fio_mkpar(t, "Charge", SDDS_DOUBLE, Q);
  double L = vf_real("length", 0.5, 2); ASSUME(L > 0.0); V3 s(ax == 0 ? 1 : 0, ax == 1 ? 1 : 0, ax == 2 ? 1 : ax == 3 ? -1 : 0), d = mul(s, L); Bunch B("in.sdds", d.v()); EQI("nop", B.getNOP(), n);
  V3 ex = ax == 0 ? V3(0, 0, 1) : V3(1, 0, 0), ey = cross3(ex, s);
  for (int i = 0; i < n; i++) { ChargedParticle *p = B.getParticle(i); EQ("charge", p->getCharge(), -Q / n); double h[64]; p->serializeTraj(h); EQ("mass", h[1], Q / ElementaryCharge / n); EQ("t", p->getTime(), 0.0); EQI("np", p->getNP(), 1);
    V3 dir = add(add(mul(ex, c[1][i]), mul(ey, c[3][i])), s); double w = dot3(dir, dir); V3 P(p->getMomentum()); double pz = dot3(P, s); CHECK("forward", pz > 0.0); EQ("p2", dot3(P, P), sq(c[4][i])); EQV3("direction", P, mul(dir, pz), 1.0);
    V3 X(p->getPosition()), off = add(mul(ex, c[0][i]), mul(ey, c[2][i])), dx = sub(X, off); EQV3("moved", mul(dx, std::sqrt(1.0 + dot3(P, P))), mul(P, SpeedOfLight * (tm - c[5][i])), 1.0);
    same_traj("same", p, p); EQV3("tp", V3(p->TrajPoint(0)), X); EQV3("tm", V3(p->TrajMomentum(0)), P); EQV3("ta", V3(p->TrajAccel(0)), V3()); }
  vf_reach("read");
}
HARNESS(h_read_bad) {
  fio_reset(); int miss = vf_choice("missing", 0, 8); static const char *N[6] = {"x", "xp", "y", "yp", "p", "t"}; double v[2] = {vf_real("a", 0.1, 1), vf_real("b", 0.1, 1)}; ASSUME(v[0] > 0.0 && v[1] > 0.0);
  if (miss != 8) { FioSdds *t = fio_mktable("in.sdds", 2); for (int k = 0; k < 6; k++) if (k != miss) fio_mkcol(t, N[k], v); if (miss != 6) fio_mkpar(t, "Particles", SDDS_LONG, 2); if (miss != 7) fio_mkpar(t, "Charge", SDDS_DOUBLE, 1e-9); }
  int rejected = 0; try { Bunch B("in.sdds", Vector(0, 0, 1)); if (B.getNOP() == 0) rejected = 1; } catch (IOexception &e) { rejected = 1; } CHECK("rejected", rejected); vf_reach("bad");
}
HARNESS(h_read_name) {   // names of any length
  fio_reset(); int len = vf_choice("len", 0, 4); static const int LEN[5] = {98, 99, 100, 101, 140}; char nmx[160]; for (int i = 0; i < LEN[len]; i++) nmx[i] = 'a' + i % 20; nmx[LEN[len]] = 0; double v[1] = {1.0}; static const char *N[6] = {"x", "xp", "y", "yp", "p", "t"};
  FioSdds *t = fio_mktable(nmx, 1); for (int k = 0; k < 6; k++) fio_mkcol(t, N[k], v); fio_mkpar(t, "Particles", SDDS_LONG, 1); fio_mkpar(t, "Charge", SDDS_DOUBLE, 1e-9); Bunch B(nmx, Vector(0, 0, 1)); EQI("found", B.getNOP(), 1); vf_reach("name");
}
// ---------------------------------------------------------------- C23
HARNESS(h_stat) {
  int n = vf_choice("n", 1, 3); Bunch *b = simpleb(n); double fr = vf_real("freq", 1e8, 1e9); Stat s = stat(b, fr); ASSUME(s.davg > 0.0);
  EQ("t", b->avgTime(), s.t); EQV3("X", V3(b->avgPosition()), s.X, 1.0); EQV3("P", V3(b->avgMomentum()), s.P, 1.0); EQ("gamma", b->avgGamma(), s.gamma); V3 r(b->rmsPosition()); CHECK("rms-sign", r.x >= 0.0 && r.y >= 0.0 && r.z >= 0.0); EQV3("rms", V3(sq(r.x), sq(r.y), sq(r.z)), s.var, 1.0);
  double d = b->delta(); CHECK("delta-sign", d >= 0.0); EQS("delta", sq(d) * sq(s.davg), s.dvar, 1.0); std::complex<double> B = b->BunchingFactor(fr); EQS("bf.re", B.real(), s.bre, 1.0); EQS("bf.im", B.imag(), s.bim, 1.0); if (n < 3) CHECK("bf-range", sq(B.real()) + sq(B.imag()) <= 1.0 + 1e-9);
  double q = 0; for (int i = 0; i < n; i++) q += b->getParticle(i)->getCharge(); EQS("charge", b->getTotalCharge(), q, 1.0); Beam m; EQI("nop", b->getNOP(), n); m.Add(b); Bunch *e = new Bunch(2, 1.5, 2.0); m.Add(e); EQS("beam-charge", m.getTotalCharge(), q + 3.0 * ElementaryCharge, 1e-19); EQI("beam-nop", m.getNOP(), n + 2); vf_reach("stat");
}
HARNESS(h_stat_shift) {
  int n = vf_choice("n", 1, 3); Bunch *b = simpleb(n), *c = new Bunch(); V3 d = real3("d"); double dt = vf_real("dt", -1e-9, 1e-9); for (int i = 0; i < n; i++) { ChargedParticle *p = b->getParticle(i), *q = new ChargedParticle(2.0, 1.0); q->setCurrentPoint(p->getTime() + dt, (p->getPosition() + d.v()), p->getMomentum(), p->getAccel()); c->Add(q); }
  EQV3("moved", V3(c->avgPosition()), add(V3(b->avgPosition()), d), 1.0); EQS("later", c->avgTime(), b->avgTime() + dt, 1e-9); V3 r(b->rmsPosition()), s(c->rmsPosition()); EQV3("spread", V3(s.x * s.x, s.y * s.y, s.z * s.z), V3(r.x * r.x, r.y * r.y, r.z * r.z), 1.0); EQV3("P", V3(b->avgMomentum()), V3(c->avgMomentum())); vf_reach("shifted");
}
// rounding errors must not make a spread negative under the root, whatever they are; natively: bunches without any spread at many places
static void defined(Bunch *b) {
  Vector r = b->rmsPosition(); CHECK("rms-defined", r.x >= 0.0 && r.y >= 0.0 && r.z >= 0.0); CHECK("delta-defined", b->delta() >= 0.0); CHECK("gamma-defined", b->avgGamma() >= 1.0 - 1e-9); std::complex<double> B = b->BunchingFactor(0.0); CHECK("bf-defined", B.real() <= 1.000001 && B.imag() < 1e-6); }
HARNESS(h_stat_rounding) {
  int n = vf_choice("n", 1, 3); double x[3], p[3]; char c[8]; for (int i = 0; i < n; i++) { x[i] = vf_real(idx(c, "x", i), 1, 100); p[i] = vf_real(idx(c, "p", i), 1, 100); ASSUME(p[i] > 0.0); }
  vf_rounding(1);
  for (int k = 0; k < (vf_symbolic() ? 1 : 3000); k++) { Bunch b; int m = vf_symbolic() || !k ? n : n + k % 9;
    for (int i = 0; i < m; i++) { ChargedParticle *q = new ChargedParticle(1.0, 1.0); double f = 1.0 + 1e-3 * k; V3 X, P; X.x = (k ? x[0] * f : x[i]); P.x = (k ? p[0] * f : p[i]); q->setCurrentPoint(0.0, X.v(), P.v(), VectorZero); b.Add(q); }
    if (k && vf_symbolic()) break; defined(&b); }
  vf_reach("rounding");
}
// ---------------------------------------------------------------- C22
static Distribution *anydist(int dim, int n, const char *tag, double *v) { Distribution *d = new Distribution(dim, n); char b[24]; for (int i = 0; i < n; i++) for (int k = 0; k < dim; k++) { pn(tag, 10 * i + k); v[i * dim + k] = real(NB); d->setCoordinate(i, k, v[i * dim + k]); } return d; }
static void same(const char *id, Distribution *d, int dim, int n, const double *v) { for (int i = 0; i < n; i++) for (int k = 0; k < dim; k++) EQ(id, d->getCoordinate(i, k), v[i * dim + k]); }
HARNESS(h_dist) {
  int dim = vf_choice("dim", 1, 3), n = vf_choice("n", 0, 3), op = vf_choice("op", 0, 4), k = vf_choice("k", -1, 3), j = vf_choice("j", -1, 3); double v[16], f = real("f"); Distribution *d = anydist(dim, n, "v", v); EQI("dim", d->getDIM(), dim); EQI("nop", d->getNOP(), n); bool in = k >= 0 && k < dim;
  if (op == 0) { d->scale(k, f); if (in) for (int i = 0; i < n; i++) v[i * dim + k] *= f; }
  else if (op == 1) { d->addCorrelation(k, j, f); if (in && j >= 0 && j < dim && j != k) for (int i = 0; i < n; i++) v[i * dim + j] += f * v[i * dim + k]; }
  else if (op == 2) { d->setCoordinate(j, k, f); if (in && j >= 0 && j < n) v[j * dim + k] = f; }
  else if (op == 3) { if (!(j >= 0 && j < n && in)) EQ("outside", d->getCoordinate(j, k), 0.0); }
  else { int m = vf_choice("number", 0, 3); ASSUME(j >= 0); Distribution *s = d->subDist(j, m); EQI("sdim", s->getDIM(), dim); EQI("snop", s->getNOP(), m); for (int i = 0; i < m; i++) for (int q = 0; q < dim; q++) EQ("sub", s->getCoordinate(i, q), j + i < n ? v[(j + i) * dim + q] : 0.0); delete s; }
  same("rest", d, dim, n, v); delete d; vf_reach("dist");
}
HARNESS(h_dist_buffer) {
  int dim = vf_choice("dim", 1, 3), n = vf_choice("n", 0, 3), sz = vf_choice("size", -1, 10); double v[16], w[16], b[18]; Distribution *d = anydist(dim, n, "v", v); for (int i = 0; i < 18; i++) b[i] = -77.0; bool t = false; try { d->bufferData(b + 1, sz); } catch (IOexception &e) { t = true; } CHECK("size-checked", t == (sz != dim * n)); for (int i = -1; i < 17; i++) EQ("buffer", b[i + 1], !t && i >= 0 && i < dim * n ? v[i] : -77.0); same("kept", d, dim, n, v);
  for (int i = 0; i < 16; i++) w[i] = real(pn("w", i)); t = false; try { d->fromBuffer(w, sz); } catch (IOexception &e) { t = true; } CHECK("size-checked2", t == (sz != dim * n)); same("loaded", d, dim, n, t ? v : w); vf_reach("dbuf");
}
HARNESS(h_dist_random) {
  int dim = vf_choice("dim", 1, 2), n = vf_choice("n", 0, 3), k = vf_choice("k", -1, 2); Distribution d(dim, n); EQI("dim", d.getDIM(), dim); EQI("nop", d.getNOP(), n); for (int i = 0; i < n; i++) for (int j = 0; j < dim; j++) { double c = d.getCoordinate(i, j); CHECK("range", c >= -1.0 && c <= 1.0); }
  double v[8]; for (int i = 0; i < n; i++) for (int j = 0; j < dim; j++) { v[i * dim + j] = real(pn("v", 3 * i + j)); d.setCoordinate(i, j, v[i * dim + j]); } d.generateGaussian(k, 0.0); if (k >= 0 && k < dim) for (int i = 0; i < n; i++) v[i * dim + k] = 0.0; same("gauss", &d, dim, n, v); vf_reach("random");
}
HARNESS(h_bunch_ctor) {
  int n = vf_choice("n", 0, 3); double q = vf_real("q", -5, 5), m = vf_real("m", 0.5, 5); ASSUME(m > 0.0); Bunch b(n, q, m); EQI("nop", b.getNOP(), n); EQ("total", b.getTotalCharge(), q * ElementaryCharge * n); for (int i = 0; i < n; i++) { double h[64]; ChargedParticle *p = b.getParticle(i); EQ("q", p->getCharge(), q * ElementaryCharge); p->serializeTraj(h); EQ("m", h[1], m); EQI("np", p->getNP(), 0); for (int k = 0; k < i; k++) CHECK("distinct", b.getParticle(k) != p); } CHECK("range", b.getParticle(-1) == 0 && b.getParticle(n) == 0);
  Bunch e; EQI("empty", e.getNOP(), 0); EQ("empty-charge", e.getTotalCharge(), 0.0); e.Add(new ChargedParticle(q, m)); EQI("one", e.getNOP(), 1); EQ("one-charge", e.getTotalCharge(), q * ElementaryCharge); vf_reach("ctor");
}
HARNESS(h_bunch_dist) {
  int n = vf_choice("n", 0, 3), dim = vf_choice("dim", 6, 9); double v[40], q = vf_real("q", -5, 5), m = vf_real("m", 0.5, 5), t0 = vf_real("t0", -1, 1); ASSUME(m > 0.0); V3 X = real3("X"), P = real3("P"); Distribution *d = anydist(dim, n, "v", v); Bunch b(d, t0, X.v(), P.v(), q, m); EQI("nop", b.getNOP(), n); EQ("total", b.getTotalCharge(), q * ElementaryCharge * n);
  for (int i = 0; i < n; i++) { ChargedParticle *p = b.getParticle(i); double *w = v + i * dim, h[64]; EQ("q", p->getCharge(), q * ElementaryCharge); p->serializeTraj(h); EQ("m", h[1], m); EQI("np", p->getNP(), 1); EQS("t", p->getTime(), t0 + (dim > 6 ? w[6] : 0.0), 1.0); EQV3("X", V3(p->getPosition()), add(X, V3(w[0], w[1], w[2])), 1.0); EQV3("P", V3(p->getMomentum()), add(P, V3(w[3], w[4], w[5])), 1.0); EQV3("A", V3(p->getAccel()), V3()); EQS("tt", p->TrajTime(0), p->getTime(), 1.0); EQV3("tX", V3(p->TrajPoint(0)), V3(p->getPosition())); EQV3("tP", V3(p->TrajMomentum(0)), V3(p->getMomentum())); EQV3("tA", V3(p->TrajAccel(0)), V3()); }
  same("dist-kept", d, dim, n, v); vf_reach("bdist");
}
static double cget(const double *x, int k) { return x[k]; }
HARNESS(h_correlation) {
  int n = vf_choice("n", 1, 3), k = vf_choice("independent", -1, 6), j = vf_choice("dependent", -1, 6); double f = real("f"), x[3][6], mean = 0; Bunch b; char c[24]; double t[3]; V3 A[3];
  for (int i = 0; i < n; i++) { pn("x", i); strcpy(c, NB); V3 X = real3(c); pn("p", i); strcpy(c, NB); V3 P = real3(c); pn("a", i); strcpy(c, NB); A[i] = real3(c); t[i] = real(pn("t", i)); double y[6] = {X.x, X.y, X.z, P.x, P.y, P.z}; memcpy(x[i], y, sizeof y); ChargedParticle *p = new ChargedParticle(1.0, 1.0); p->initTrajectory(t[i], X.v(), P.v(), A[i].v()); b.Add(p); }
  bool ok = k >= 0 && k < 6 && j >= 0 && j < 6 && j != k; if (ok) for (int i = 0; i < n; i++) mean += x[i][k] / n;
  b.addCorrelation(k, j, f); EQI("nop", b.getNOP(), n);
  for (int i = 0; i < n; i++) { if (ok) x[i][j] += f * (x[i][k] - mean); ChargedParticle *p = b.getParticle(i); EQI("np", p->getNP(), 1); EQ("t", p->TrajTime(0), t[i]); EQV3("A", V3(p->TrajAccel(0)), A[i]); EQV3("X", V3(p->TrajPoint(0)), V3(x[i][0], x[i][1], x[i][2]), 1.0); EQV3("P", V3(p->TrajMomentum(0)), V3(x[i][3], x[i][4], x[i][5]), 1.0); EQV3("cX", V3(p->getPosition()), V3(p->TrajPoint(0)), 1.0); EQV3("cP", V3(p->getMomentum()), V3(p->TrajMomentum(0)), 1.0); }
  vf_reach("correlation");
}
