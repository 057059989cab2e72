// The real InputParser on documents whose numbers are arbitrary; oracle: the objects built directly from the same numbers.
#include "xmlkit.h"
#include "ptc.h"
#include "beam.h"
#include "bunch.h"
#include "fields.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include "screen.h"
#include "snapshot.h"
#include "mesh.h"
#include "point_observer.h"
#include "source_screen.h"
#include "fel1d.h"
#include "filekit.h"
#ifndef _OPENMP
extern "C" int omp_get_thread_num() { return 0; }
extern "C" int omp_get_num_threads() { return 1; }
#endif
#ifndef VF_DEEP
#define DEEP 0
#else
#define DEEP 1
#endif
// every input symbol is an arbitrary number; ranges only where a quantity has to be positive
static bool one(const char *n, const char *set) { int l = strlen(n); for (const char *p = set; *p;) { const char *e = p; while (*e && *e != ' ') e++; if (e - p == l && !memcmp(p, n, l)) return true; p = *e ? e + 1 : e; } return false; }
static double input0(const char *n) { if (one(n, "in_pos in_lam in_zR in_tau in_l1 in_l2 in_dt")) { double v = vf_real(n, 0.3, 2.0); ASSUME(v > 0.0); return v; } if (one(n, "in_gamma in_gamma2")) { double v = vf_real(n, 1.5, 4.0); ASSUME(v > 1.0); return v; } if (one(n, "in_cmr")) { double v = vf_real(n, -2.0, -0.5); ASSUME(v < 0.0); return v; } return vf_real(n, -2.0, 2.0); }
static struct { char n[24]; double v; } memo[64]; static int nmemo = 0;
double vf_input(const char *n) { for (int i = 0; i < nmemo; i++) if (!strcmp(memo[i].n, n)) return memo[i].v; double v = input0(n); strcpy(memo[nmemo].n, n); memo[nmemo++].v = v; return v; }
static double in(const char *n) { char b[32]; nm(b, "in_", n); return vf_input(b); }
static V3 in3(const char *n) { char b[32]; V3 r; nm(b, n, "x"); r.x = in(b); nm(b, n, "y"); r.y = in(b); nm(b, n, "z"); r.z = in(b); return r; }
static void same(const char *id, ElMagField f, ElMagField g) { char c[64]; nm(c, id, ".E"); EQV3(c, V3(f.E()), V3(g.E()), 1.0); nm(c, id, ".B"); EQV3(c, V3(f.B()), V3(g.B()), 1.0); }
static InputParser *parser(const char *body) { Txt t; t << "<teufel description=\"d\" author=\"a\" >" << body << "</teufel>"; return new InputParser(xdoc(t.b)->first_child()); }
static InputParser *section(const char *name, const char *body) { Txt t; t << "<" << name << ">" << body << "</" << name << ">"; return parser(t.b); }
// ---------------------------------------------------------------- calculator
HARNESS(h_calc) {
  Txt t; t << "<calc var=\"a\" eq=\"in_p\" /><calc var=\"b\" eq=\"2*a+in_q\" print=\"b = \" /><!-- comment --><calc print=\"only\" eq=\"a*b\" /><calc var=\"bad\" eq=\"nosuch*2\" /><calc var=\"a2\" eq=\"a\" /><calc var=\"b\" eq=\"b*b\" /><x d=\"a\" e=\"b-1\" f=\"7.6\" g=\"3*(a-a2)+_c\" h=\"\" i=\"bad\" j=\"-2.4\" k=\"6/2\" l=\"_e\" m=\"_mec2\" n=\"_eps0\" o=\"_pi\" />";
  InputParser *p = parser(t.b); Txt u; u << "<x d=\"a\" e=\"b-1\" f=\"7.6\" g=\"3*(a-a2)+_c\" h=\"\" i=\"bad\" j=\"-2.4\" k=\"6/2\" l=\"_e\" m=\"_mec2\" n=\"_eps0\" o=\"_pi\" />"; pugi::xml_node x = xdoc(u.b)->first_child(); double a = in("p"), b = 2 * a + in("q"); b = b * b;
  EQ("var", p->parseDouble(x.attribute("d")), a); EQS("redefined", p->parseDouble(x.attribute("e")), b - 1, 1.0); NEAR("number", p->parseDouble(x.attribute("f")), 7.6, 1.0, 1e-12); EQ("c", p->parseDouble(x.attribute("g")), SpeedOfLight); EQ("e", p->parseDouble(x.attribute("l")), ElementaryCharge); EQ("m", p->parseDouble(x.attribute("m")), mecsquared); EQ("eps", p->parseDouble(x.attribute("n")), EpsNull); EQ("pi", p->parseDouble(x.attribute("o")), Pi);
  CHECK("empty", p->parseDouble(x.attribute("h")) == 0.0); CHECK("unknown", p->parseDouble(x.attribute("i")) == 0.0); CHECK("missing", p->parseDouble(x.attribute("zz")) == 0.0); CHECK("int-missing", p->parseInt(x.attribute("zz")) == 0.0); EQI("int", (int)p->parseInt(x.attribute("f")), 8); EQI("negative", (int)p->parseInt(x.attribute("j")), -2); EQI("term", (int)p->parseInt(x.attribute("k")), 3);
  Txt w; w << "<y><calc var=\"c\" eq=\"a+1\" /><z><calc var=\"a\" eq=\"5\" /></z></y><q d=\"c\" e=\"a\" />"; pugi::xml_document *d = xdoc(w.b); p->parseCalcChildren(d->child("y")); EQ("child", p->parseDouble(d->child("q").attribute("d")), a + 1); EQ("grandchild", p->parseDouble(d->child("q").attribute("e")), a); delete p; vf_reach("calc");
}
// ---------------------------------------------------------------- lattice
static const char *POS = "p";
static void element(Txt &t, int k, int drop, bool rev) {   // element k, mandatory child number drop left out (-1: complete), children in reverse order
  static const char *head[8] = {"<undulator name=\"u\" type=\"planar\">", "<undulator name=\"u\" type=\"transverse gradient\">", "<undulator type=\"transverse gradient\">", "<wave name=\"w\" type=\"gaussian\">", "<wave name=\"w\" type=\"packet\">", "<dipole name=\"d\" type=\"hard edge\">", "<dipole type=\"soft edge\">", "<background>"};
  static const char *tail[8] = {"</undulator>", "</undulator>", "</undulator>", "</wave>", "</wave>", "</dipole>", "</dipole>", "</background>"}; t << head[k] << "<calc var=\"loc\" eq=\"in_lam\" />";
  static const char *fld[5] = {"<field B=\"in_B\" period=\"loc\" N=\"2\" />", "<field B=\"in_B\" kx=\"in_kx\" modulation=\"in_mod\" period=\"loc\" N=\"2\" />", "<field N=\"2\" period=\"loc\" kx=\"in_kx\" B=\"in_B\" />", "<field lambda=\"loc\" ReA=\"in_Ar\" ImA=\"in_Ai\" rayleigh=\"in_zR\" />", "<field ImA=\"in_Ai\" lambda=\"loc\" ReA=\"in_Ar\" rayleigh=\"in_zR\" tau=\"in_tau\" />"};
  if (k < 5) { for (int j = 0; j < 2; j++) { int c = rev ? 1 - j : j; if (c == drop) continue; if (c == 0) t << "<position x=\"in_px\" y=\"in_py\" z=\"in_pz\" " << (k == 4 ? "t=\"in_t0\"" : "") << " />"; else t << fld[k]; } }
  else if (k < 7) { static const char *el[5] = {"B", "p1", "n1", "p2", "n2"}, *nn[5] = {"B", "p", "n", "r", "s"}; int m = k == 6 ? 6 : 5; for (int j = 0; j < m; j++) { int c = rev ? m - 1 - j : j; if (c == drop) continue; if (c < 5) xyz(t, el[c], nn[c]); else t << "<transition l1=\"in_l1\" l2=\"in_l2\" />"; } }
  else { for (int j = 0; j < 2; j++) { int c = rev ? 1 - j : j; if (c == drop) continue; xyz(t, c ? "B" : "E", c ? "B" : "e"); } } t << tail[k];
}
static int parts(int k) { return k < 5 ? 2 : k == 5 ? 5 : k == 6 ? 6 : 2; }
static GeneralField *direct(int k, int drop) {
  V3 p = k < 5 ? in3(POS) : V3(); if (k == 0) { PlanarUndulator *u = new PlanarUndulator(p.v()); u->Setup(in("B"), in("lam"), 2); return u; } if (k == 1 || k == 2) { TransverseGradientUndulator *u = new TransverseGradientUndulator(p.v()); u->Setup(in("B"), in("kx"), k == 1 ? in("mod") : 0.0, in("lam"), 2); return u; }
  if (k == 3) { GaussianWave *w = new GaussianWave(0.0, p.v()); w->Setup(in("lam"), complex<double>(in("Ar"), in("Ai")), in("zR")); return w; } if (k == 4) { GaussianWavePacket *w = new GaussianWavePacket(in("t0"), p.v()); w->Setup(in("lam"), complex<double>(in("Ar"), in("Ai")), in("zR"), in("tau")); return w; }
  if (k == 5) return new HardEdgeDipole(in3("B").v(), in3("p").v(), in3("n").v(), in3("r").v(), in3("s").v()); if (k == 6) return new SoftEdgeDipole(in3("B").v(), in3("p").v(), in3("n").v(), in("l1"), in3("r").v(), in3("s").v(), in("l2"));
  return new HomogeneousField(drop == 0 ? VectorZero : in3("e").v(), drop == 1 ? VectorZero : in3("B").v()); }
HARNESS(h_lattice) {   // every element of the input is the element built directly from the numbers, in the order of the input
  int k = vf_choice("element", 0, 7), rev = vf_choice("reversed", 0, 1), first = vf_choice("first", 0, 1); Txt t; V3 H = real3("H"); if (first) { t << "<calc var=\"h\" eq=\"in_hx\" /><background><B x=\"h\" y=\"in_hy\" z=\"in_hz\" /></background>"; H = in3("h"); } element(t, k, -1, rev); InputParser *p = section("lattice", t.b); Lattice *l = new Lattice(); int n = p->parseLattice(l); EQI("elements", n, 1 + first); EQI("count", l->count(), 1 + first); if (l->count() != 1 + first) return; delete p;
  double tt = real("t"); V3 X(real("X"), real("Y"), real("Z")); if (first) same("first", l->at(0)->Field(tt, X.v()), ElMagField(VectorZero, H.v())); GeneralField *d = direct(k, -1); if (k == 3 || k == 4) { V3 o = in3("p"); ASSUME(X.z > o.z); } CHECK("external", l->at(first)->is_external()); same("element", l->at(first)->Field(tt, X.v()), d->Field(tt, X.v())); vf_reach("lattice");
}
HARNESS(h_lattice_missing) {   // without a mandatory part there is no element
  int k = vf_choice("element", 0, 7), drop = vf_choice("drop", 0, 5); if (drop >= parts(k)) drop = 0; Txt t; element(t, k, drop, false); InputParser *p = section("lattice", t.b); Lattice *l = new Lattice(); bool th = false; try { p->parseLattice(l); } catch (IOexception &e) { th = true; } if (k == 7) { CHECK("optional", !th); if (!th) { V3 X; same("other", l->Field(0.0, X.v()), direct(7, drop)->Field(0.0, X.v())); } } else CHECK("rejected", th); vf_reach("missing");
}
HARNESS(h_lattice_screen) {   // a recorded screen as source of the field, placed and timed by the input
  fio_reset(); long d[4] = {4, 3, 0, 0}; FioSet *q = fio_make("s.h5", "Screen", 0, 2, d); double g[12] = {1, 2, 3, 0, 0, -1, 0.5, 0, 0, 0, 0.25, 0}; for (int i = 0; i < 12; i++) q->d[i] = g[i]; fio_put(q, "Nx", 1); fio_put(q, "Ny", 1); fio_put(q, "NOTS", 2); fio_put(q, "t0", 5.0); fio_put(q, "dt", 1e-9); d[0] = d[1] = 1; d[2] = 2; d[3] = 6; q = fio_make("s.h5", "ElMagField", 0, 4, d); char n[8] = "v00"; for (int i = 0; i < 12; i++) { n[1] = '0' + i / 10; n[2] = '0' + i % 10; q->d[i] = real(n); }
  int tm = vf_choice("time", 0, 1); Txt t; t << "<calc var=\"zz\" eq=\"in_pz\" /><screen file=\"s.h5\" name=\"s\" ><calc var=\"yy\" eq=\"in_py\" /><position x=\"in_px\" y=\"yy\" z=\"zz\" " << (tm ? "t=\"in_t0\"" : "") << " /></screen>"; InputParser *p = section("lattice", t.b); Lattice *l = new Lattice(); EQI("elements", p->parseLattice(l), 1); EQI("count", l->count(), 1); if (l->count() != 1) return; delete p; SourceScreen s("s.h5", in3("p").v(), tm ? in("t0") : 0.0); CHECK("external", l->at(0)->is_external());
  V3 R(0, 0, 0.75); double f = vf_real("f", 0.1, 0.9); ASSUME(f > 0.0); ASSUME(f < 1.0); double t0 = (tm ? in("t0") : 0.0) + 0.75 / SpeedOfLight + f * 1e-9; Vector X = sub(in3("p"), R).v(); same("screen", l->at(0)->Field(t0, X), s.Field(t0, X)); vf_reach("screen");
}
HARNESS(h_sections) {   // missing sections and unknown entries are rejected
  static const char *bad[18] = {"<lattice><magnet /></lattice>", "<lattice><undulator type=\"helical\"><position /><field /></undulator></lattice>", "<lattice><wave type=\"plane\"><position /><field /></wave></lattice>", "<lattice><dipole type=\"\"><B /><p1 /><n1 /><p2 /><n2 /></dipole></lattice>", "<lattice><screen><position /></screen></lattice>", "<lattice><screen file=\"s.h5\" /></lattice>", "<x />",
    "<beam><electron /></beam>", "<beam><SDDS /></beam>", "<beam><probe step=\"2\" /></beam>", "<x />", "<tracking delta_t=\"1\" n=\"2\" />", "<tracking method=\"Euler\" delta_t=\"1\" n=\"2\" />", "<tracking method=\"Vay\" n=\"2\" />", "<tracking method=\"Vay\" delta_t=\"1\" />", "<x />", "<observer><camera /></observer>", "<x />"};
  int k = vf_choice("case", 0, 17); InputParser *p = parser(bad[k]); bool th = false; Lattice l; Beam b; std::vector<Logger *> lg; ProbeInfo pr{false, 0, "", 0, 0}; std::vector<watch_t> w; std::list<InteractionField *> f; std::vector<BaseObserver *> o;
  try { if (k < 7) p->parseLattice(&l); else if (k < 11) p->parseBeam(&b, &lg, &pr); else if (k < 16) p->parseTracking(&b, &w, &f); else p->parseObservers(&o); } catch (IOexception &e) { th = true; } CHECK("rejected", th);
  if (k == 17) { InputParser *q = parser("<lattice></lattice><beam></beam><observer><!-- none --></observer><tracking method=\"Vay\" delta_t=\"in_dt\" n=\"3\" />"); EQI("no lattice", q->parseLattice(&l), 0); EQI("no beam", q->parseBeam(&b, &lg, &pr), 0); q->parseObservers(&o); EQI("no observers", o.size(), 0); q->parseTracking(&b, &w, &f); EQ("dt", b.getTimeStep(), in("dt")); EQI("nots", b.getNOTS(), 3); EQI("loggers", lg.size(), 0); CHECK("no probe", !pr.requested); EQI("no watches", w.size(), 0); EQI("no interactions", f.size(), 0); } vf_reach("sections");
}
// ---------------------------------------------------------------- beam
static void unit_mom(const char *id, V3 P, V3 dir, double bg) {   // P is parallel to dir with length bg
  char c[48]; V3 x = cross3(P, dir); nm(c, id, ".parallel"); EQV3(c, x, V3(), 4.0); nm(c, id, ".along"); CHECK(c, vf_decide(dot3(P, dir) > 0.0)); nm(c, id, ".length"); EQS(c, dot3(P, P), bg * bg, 10.0); }
HARNESS(h_particle) {
  int n = vf_choice("particles", 1, 2), tm = vf_choice("time", 0, 1), lg = vf_choice("log", 0, 2); Txt t; char a[8]; for (int i = 0; i < n; i++) { a[0] = i ? '2' : 0; a[1] = 0; t << "<particle cmr=\"in_cmr\" charge=\"in_q" << a << "\" gamma=\"in_gamma" << a << "\" >"; t << "<momentum x=\"in_dx\" y=\"in_dy\" z=\"in_dz\" />"; if (tm) t << "<time t0=\"in_t0\" />"; t << "<calc var=\"c\" eq=\"in_p" << a << "x\" /><position x=\"c\" y=\"in_p" << a << "y\" z=\"in_p" << a << "z\" />"; if (lg && !i) { t << "<log file=\"l.sdds\""; if (lg == 2) t << " step=\"3\""; t << " />"; } t << "</particle>"; }
  InputParser *p = section("beam", t.b); Beam b; std::vector<Logger *> L; ProbeInfo pr{false, 0, "", 0, 0}; V3 d = in3("d"); ASSUME(dot3(d, d) > 0.0); EQI("bunches", p->parseBeam(&b, &L, &pr), n); EQI("NOB", b.getNOB(), n); CHECK("no probe", !pr.requested); EQI("loggers", L.size(), lg ? 1 : 0); if (b.getNOB() != n) return;
  for (int i = 0; i < n; i++) { Bunch *k = b.getBunch(i); EQI("NOP", k->getNOP(), 1); if (k->getNOP() != 1) return; ChargedParticle *c = k->getParticle(0); double q = in(i ? "q2" : "q"), g = in(i ? "gamma2" : "gamma"); EQS("charge", c->getCharge(), q, 1.0); EQ("t0", c->getTime(), tm ? in("t0") : 0.0); EQV3("position", V3(c->getPosition()), in3(i ? "p2" : "p")); unit_mom("momentum", V3(c->getMomentum()), d, std::sqrt(g * g - 1.0)); EQV3("accel", V3(c->getAccel()), V3());
    double buf[40]; c->serializeTraj(buf); EQS("cmr", buf[0], buf[1] * in("cmr"), 1e19); EQI("points", c->getNP(), 1); EQ("tt", c->TrajTime(0), tm ? in("t0") : 0.0); }
  if (lg && L.size() == 1) { fio_reset(); int s = lg == 2 ? 3 : 1; for (int i = 0; i <= 4; i++) EQI("requested", L[0]->log_requested(i), i % s == 0); L[0]->update(); L[0]->WriteData(); CHECK("logfile", fio_table("l.sdds") != 0); } vf_reach("particle");
}
HARNESS(h_particle_missing) { int k = vf_choice("drop", 0, 3); Txt t; t << "<" << (k < 2 ? "particle" : "bunch") << " cmr=\"-1\" charge=\"-1e-12\" gamma=\"3\" >" << (k % 2 ? "<momentum x=\"1\" y=\"0\" z=\"0\" />" : "<position x=\"1\" y=\"0\" z=\"0\" />") << "</" << (k < 2 ? "particle" : "bunch") << ">"; InputParser *p = section("beam", t.b); Beam b; std::vector<Logger *> L; ProbeInfo pr{false, 0, "", 0, 0}; bool th = false; try { p->parseBeam(&b, &L, &pr); } catch (IOexception &e) { th = true; } CHECK("rejected", th); vf_reach("missing"); }
HARNESS(h_bunch) {   // bunches: charge shared by the particles, spread only where one is given, proportional to it
  int n = vf_choice("n", -1, DEEP ? 4 : 3), sp = vf_choice("spread", 0, 7), tm = vf_choice("time", 0, 1), corr = sp == 1 ? vf_choice("corr", 0, 1) : 0; if (!n) n = 1; int N = n < 0 ? 1 : n; static const char *att[8] = {"", "xrms=\"in_s\"", "yrms=\"in_s\"", "zrms=\"in_s\"", "zft=\"in_s\"", "xrms=\"in_s\"", "yrms=\"in_s\"", "delta=\"in_s\""}; double s = in("s"); ASSUME(s != 0.0);
  Txt t; t << "<bunch gamma=\"in_gamma\" charge=\"in_q\" cmr=\"in_cmr\" "; if (n > 0) t << "n=\"" << n << "\" "; t << "><position x=\"in_px\" y=\"in_py\" z=\"in_pz\" " << (sp < 5 ? att[sp] : "") << " /><momentum x=\"0.0\" y=\"in_dy\" z=\"0\" " << (sp >= 5 ? att[sp] : "") << " />"; if (tm) t << "<time t0=\"in_t0\" />"; if (corr) t << "<correlations><linear indep=\"0\" dep=\"2\" factor=\"in_f\" /><linear indep=\"0\" dep=\"4\" factor=\"in_f2\" /></correlations>"; t << "</bunch>";
  InputParser *p = section("beam", t.b); Beam b; std::vector<Logger *> L; ProbeInfo pr{false, 0, "", 0, 0}; double dy = in("dy"); ASSUME(dy > 0.0); EQI("bunches", p->parseBeam(&b, &L, &pr), 1); EQI("NOB", b.getNOB(), 1); Bunch *k = b.getBunch(0); EQI("NOP", k->getNOP(), N); EQI("loggers", L.size(), 0); if (k->getNOP() != N) return; V3 P0 = in3("p"); double g = in("gamma"), bg = std::sqrt(g * g - 1.0); EQS("total", k->getTotalCharge(), in("q"), 1.0); double first = 0;
  for (int i = 0; i < N; i++) { ChargedParticle *c = k->getParticle(i); EQS("charge", c->getCharge() * N, in("q"), 1.0); double buf[40]; c->serializeTraj(buf); EQS("cmr", buf[0], buf[1] * in("cmr"), 1e19); EQ("t0", c->getTime(), tm ? in("t0") : 0.0); V3 dx = sub(V3(c->getPosition()), P0), dp = sub(V3(c->getMomentum()), V3(0, bg, 0)); double v[6] = {dx.x, dx.y, dx.z, dp.x, dp.y, dp.z}; int w = sp == 0 ? -1 : sp == 4 ? 2 : sp <= 3 ? sp - 1 : sp - 2;
    for (int j = 0; j < 6; j++) { if (j == w) { double u = v[j] / (j < 3 ? s : s * bg); CHECK("spread", vf_decide(u < (sp == 4 ? 1.0000001 : 9.0)) && vf_decide(u > (sp == 4 ? -1.0000001 : -9.0))); } else EQS("centre", v[j], corr && j == 2 ? in("f") * v[0] : corr && j == 4 ? in("f2") * v[0] : 0.0, 10.0); if (j == w && i == 0) first = v[j]; if (j == w && i == 1) CHECK("spread-out", vf_decide(first != v[j])); } } vf_reach("bunch");
}
HARNESS(h_bunch_logs) {   // loggers of a bunch and the probe request
  int how = vf_choice("how", 0, 3); fio_reset(); Txt t; t << "<bunch gamma=\"in_gamma\" charge=\"in_q\" cmr=\"in_cmr\" n=\"3\" ><position x=\"0\" y=\"0\" z=\"0\" /><momentum x=\"0.0\" y=\"0\" z=\"1\" />"; if (how != 1) t << "<log step=\"2\" file=\"a.sdds\" " << (how == 3 ? "bunching-freq=\"in_dt\"" : "") << " />"; if (how) { t << "<trajectories file=\"b.h5\" "; if (how > 1) t << "step=\"5\" particles=\"2\" "; t << "/>"; } t << "</bunch>"; if (how == 2) t << "<probe file=\"p.h5\" step=\"4\" number=\"7\" />"; if (how == 3) t << "<probe file=\"q.h5\" />";
  InputParser *p = section("beam", t.b); Beam b; std::vector<Logger *> L; ProbeInfo pr{false, 0, "", 0, 0}; EQI("bunches", p->parseBeam(&b, &L, &pr), 1); EQI("loggers", L.size(), how >= 2 ? 2 : 1); CHECK("probe", pr.requested == (how >= 2)); if (how >= 2) { CHECK("probefile", !strcmp(pr.filename, how == 2 ? "p.h5" : "q.h5")); EQI("step", pr.step, how == 2 ? 4 : 1); EQI("number", pr.number, how == 2 ? 7 : 1); }
  if (how != 1 && L.size()) { for (int i = 0; i < 6; i++) EQI("log", L[0]->log_requested(i), i % 2 == 0); L[0]->update(); L[0]->WriteData(); FioSdds *f = fio_table("a.sdds"); CHECK("logfile", f != 0); if (f) CHECK("bunching", (fio_par(f, "BunchingFrequency") != 0) == (how == 3)); if (how == 3 && fio_par(f, "BunchingFrequency")) EQ("freq", fio_par(f, "BunchingFrequency")->v, in("dt")); }
  if (how && L.size()) { Logger *l = L[L.size() - 1]; int s = how > 1 ? 5 : 1; for (int i = 0; i < 11; i++) EQI("traj", l->log_requested(i), i % s == 0); l->update(); l->WriteData(); CHECK("trajfile", fio_file("b.h5") >= 0); long q = 0; for (int i = 0; i < fio_ns; i++) if (fio_sets[i].file == fio_file("b.h5") && fio_sets[i].n > q) q = fio_sets[i].n; EQI("trajectories", q, 6 * (how > 1 ? 2 : 3)); } vf_reach("logs");
}
HARNESS(h_sdds) {   // bunches from files
  int dir = vf_choice("dir", 0, 1), corr = vf_choice("corr", 0, 1); fio_reset(); FioSdds *tb = fio_mktable("in.sdds", 2); static const char *cn[6] = {"x", "xp", "y", "yp", "p", "t"}; double v[2]; char n[8]; for (int i = 0; i < 6; i++) { for (int j = 0; j < 2; j++) { nm(n, cn[i], j ? "1" : "0"); v[j] = i == 4 ? realp(n) : real(n); } fio_mkcol(tb, cn[i], v); } fio_mkpar(tb, "Particles", 1, 2); fio_mkpar(tb, "Charge", 0, real("Q"));
  Txt t; t << "<SDDS file=\"in.sdds\" >"; if (dir) t << "<dir x=\"2\" y=\"0\" z=\"0\" />"; if (corr) t << "<correlations><linear indep=\"0\" dep=\"2\" factor=\"in_f\" /></correlations>"; t << "<log file=\"o.sdds\" step=\"2\" /></SDDS>"; InputParser *p = section("beam", t.b); Beam b; std::vector<Logger *> L; ProbeInfo pr{false, 0, "", 0, 0}; EQI("bunches", p->parseBeam(&b, &L, &pr), 1); EQI("loggers", L.size(), 1); Bunch *k = b.getBunch(0); Bunch r("in.sdds", dir ? Vector(1, 0, 0) : Vector(0, 0, 1)); if (corr) r.addCorrelation(0, 2, in("f")); EQI("NOP", k->getNOP(), r.getNOP()); if (k->getNOP() != r.getNOP()) return;
  for (int i = 0; i < r.getNOP(); i++) { ChargedParticle *c = k->getParticle(i), *d = r.getParticle(i); EQ("charge", c->getCharge(), d->getCharge()); EQ("time", c->getTime(), d->getTime()); EQV3("pos", V3(c->getPosition()), V3(d->getPosition()), 1.0); EQV3("mom", V3(c->getMomentum()), V3(d->getMomentum()), 1.0); } vf_reach("sdds");
}
HARNESS(h_tracking) {
  int w = vf_choice("watches", 0, 7), fel = vf_choice("fel", 0, 1); Txt t; t << "<calc var=\"step\" eq=\"in_dt\" /><tracking n=\"2*3\" delta_t=\"step\" method=\"Vay\" ><calc var=\"k\" eq=\"4\" />"; if (w & 1) t << "<watch step=\"k+1\" file=\"a.h5\" />"; if (fel) t << "<fel1d N=\"3\" ><position x=\"0\" y=\"0\" z=\"0\" /><prop x=\"0\" y=\"0\" z=\"1\" /><pol x=\"1\" y=\"0\" z=\"0\" /><mode zR=\"1\" w0=\"1\" zwaist=\"0\" /></fel1d>"; if (w & 2) t << "<watch-sdds file=\"b.sdds\" step=\"0\" />"; if (w & 4) t << "<watch-sdds file=\"c.sdds\" step=\"k*2\" /><watch file=\"d.h5\" step=\"6\" />"; t << "</tracking>";
  InputParser *p = parser(t.b); Beam b; std::vector<watch_t> W; std::list<InteractionField *> F; p->parseTracking(&b, &W, &F); EQ("dt", b.getTimeStep(), in("dt")); EQI("n", b.getNOTS(), 6); EQI("method", b.getTrackingMethod(), TRACKING_VAY); int m = (w & 1) + (w >> 1 & 1), nw = m + (w & 4 ? 2 : 0); EQI("watches", W.size(), nw); EQI("interactions", F.size(), fel); if ((int)W.size() == nw) { if (w & 4) { EQI("t.step", W[m].step, 8); CHECK("t.file", W[m].filename == "c.sdds" && W[m + 1].filename == "d.h5"); CHECK("t.type", W[m].type == sdds && W[m + 1].type == hdf5); EQI("u.step", W[m + 1].step, 6); } if (w & 1) { EQI("w.step", W[0].step, 5); CHECK("w.file", W[0].filename == "a.h5"); CHECK("w.type", W[0].type == hdf5); } if (w & 2) { watch_t &x = W[w & 1]; EQI("s.step", x.step, 0); CHECK("s.file", x.filename == "b.sdds"); CHECK("s.type", x.type == sdds); } }
  if (fel && F.size() == 1) { b.setTimeStep(in("dt")); b.Add(new Bunch()); bool th = false; try { F.front()->init(&b); } catch (IOexception &e) { th = true; } CHECK("fel-step", !th); } static const char *bad[4] = {"<watch file=\"a\" />", "<watch step=\"1\" />", "<watch-sdds step=\"1\" />", "<monitor />"}; if (!w && !fel) for (int i = 0; i < 4; i++) { Txt u; u << "<tracking n=\"1\" delta_t=\"1\" method=\"Vay\" >" << bad[i] << "</tracking>"; bool th = false; try { parser(u.b)->parseTracking(&b, &W, &F); } catch (IOexception &e) { th = true; } CHECK("rejected", th); } vf_reach("tracking");
}
// ---------------------------------------------------------------- observers
struct Fn : public GeneralField { bool is_external() override { return true; } ElMagField Field(double t, Vector X) override { double a[4] = {t, X.x, X.y, X.z}; return ElMagField(Vector(vf_fn("Ex", 4, a), vf_fn("Ey", 4, a), vf_fn("Ez", 4, a)), Vector(vf_fn("Bx", 4, a), vf_fn("By", 4, a), vf_fn("Bz", 4, a))); } };
static const char *SRC[3] = {"", " source=\"beam\"", " source=\"lattice\""};
template <class O> static bool istype(BaseObserver *o, int want, int got) { return dynamic_cast<Observer<Beam> *>(o) ? want != 2 : dynamic_cast<Observer<Lattice> *>(o) ? want == 2 : false; }
static void src(BaseObserver *o, int s, Lattice *l, Beam *b) { CHECK("source", s == 2 ? dynamic_cast<Observer<Lattice> *>(o) != 0 : dynamic_cast<Observer<Beam> *>(o) != 0); if (s == 2) { if (Observer<Lattice> *q = dynamic_cast<Observer<Lattice> *>(o)) { q->setSource(l); q->integrate(); } } else if (Observer<Beam> *q = dynamic_cast<Observer<Beam> *>(o)) { q->setSource(b); q->integrate(); } o->generateOutput(); }
HARNESS(h_observers) {   // what an observer of the input records is what the directly built observer records
  int k = vf_choice("kind", 0, 3), s = vf_choice("src", 0, 2), d = k == 1 ? vf_choice("delays", 0, 3) : 0, rev = vf_choice("reversed", 0, 1); fio_reset(); Txt t; const char *a = "in.h5"; Lattice l, l2; l.addElement(new Fn()); Beam b; b.Add(new Bunch()); BaseObserver *r = 0; double t0 = in("t0"), dt = in("dt"); V3 P = in3("p"), H = in3("h"), V = in3("v"); if (k == 1) { V3 n = cross3(H, V); ASSUME(dot3(n, n) > 0.0); }
  if (k == 3) { Txt g; long dim[3]; dim[0] = 3; dim[1] = 3; V3 cp[3] = {real3("C0"), real3("C1"), real3("C2")}; (void)dim; for (int f = 0; f < 2; f++) { const char *fn = f ? "o.h5" : a; dim[0] = 3; dim[1] = 3; FioSet *q = fio_make(fn, "MeshCornerPoints", 0, 2, dim); V3 c0[3] = {V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0)}; for (int i = 0; i < 3; i++) { q->d[3 * i] = c0[i].x; q->d[3 * i + 1] = c0[i].y; q->d[3 * i + 2] = c0[i].z; } fio_put(q, "Ncp", 3); dim[0] = 1; q = fio_make(fn, "ObservationPosition", 0, 2, dim); q->d[0] = P.x; q->d[1] = P.y; q->d[2] = P.z; fio_put(q, "Np", 1); q = fio_make(fn, "MeshTriangles", 1, 2, dim); for (int i = 0; i < 3; i++) q->i[i] = i; fio_put(q, "Ntri", 1); q = fio_make(fn, "ObservationTime", 0, 1, dim); q->d[0] = t0; fio_put(q, "Nt", 2); fio_put(q, "dt", dt); } }
  static const char *kind[4] = {"snapshot", "screen", "point", "mesh"}; t << "<calc var=\"pp\" eq=\"in_pz\" /><" << kind[k] << " file=\"" << a << "\"" << SRC[s] << " ><calc var=\"dd\" eq=\"in_dt\" />";
  for (int j = 0; j < 4 && k < 3; j++) { int c = rev ? 3 - j : j; if (c == 0) t << "<position x=\"in_px\" y=\"in_py\" z=\"pp\" />"; if (c == 1) { t << "<time t0=\"in_t0\" "; if (k) t << "dt=\"dd\" n=\"2\" "; t << "/>"; } if (k < 2 && c == 2) t << "<hpitch x=\"in_hx\" y=\"in_hy\" z=\"in_hz\" n=\"2\" " << (d & 1 ? "dt=\"in_dh\" " : "") << "/>"; if (k < 2 && c == 3) t << "<vpitch n=\"3\" x=\"in_vx\" y=\"in_vy\" z=\"in_vz\" " << (d & 2 ? "dt=\"in_dv\" " : "") << "/>"; } t << "</" << kind[k] << ">";
  InputParser *p = section("observer", t.b); std::vector<BaseObserver *> L; p->parseObservers(&L); EQI("observers", L.size(), 1); if (L.size() != 1) return; CHECK("type", L[0]->getSourceType() == (s == 2 ? LatticeObservation : BeamObservation)); double dh = d & 1 ? in("dh") : 0.0, dv = d & 2 ? in("dv") : 0.0; const char *o = "o.h5";
  if (s == 2) { if (k == 0) r = new SnapshotObserver<Lattice>(o, P.v(), H.v(), V.v(), 2, 3, t0); if (k == 1) r = new ScreenObserver<Lattice>(o, P.v(), H.v(), V.v(), 2, 3, t0, dt, dh, dv, 2); if (k == 2) r = new PointObserver<Lattice>(o, P.v(), t0, dt, 2); if (k == 3) { MeshedScreen<Lattice> *m = new MeshedScreen<Lattice>(o); m->init(); m->zero(); r = m; } }
  else { if (k == 0) r = new SnapshotObserver<Beam>(o, P.v(), H.v(), V.v(), 2, 3, t0); if (k == 1) r = new ScreenObserver<Beam>(o, P.v(), H.v(), V.v(), 2, 3, t0, dt, dh, dv, 2); if (k == 2) r = new PointObserver<Beam>(o, P.v(), t0, dt, 2); if (k == 3) { MeshedScreen<Beam> *m = new MeshedScreen<Beam>(o); m->init(); m->zero(); r = m; } }
  src(L[0], s, &l, &b); src(r, s, &l, &b); if (k == 2) sametable(a, o); else samefile(a, o); vf_reach("observer");
}
HARNESS(h_observers_missing) {
  int k = vf_choice("kind", 0, 3), drop = vf_choice("drop", 0, 8); static const char *kind[4] = {"snapshot", "screen", "point", "mesh"}; Txt t; fio_reset(); bool has[4][9] = {{1, 1, 1, 1, 1, 1, 1, 0, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 1, 0, 0, 0, 0, 1, 1}, {1, 0, 0, 0, 0, 0, 0, 0, 1}}; if (!has[k][drop]) drop = 0; t << "<" << kind[k] << " " << (drop == 0 ? "" : "file=\"f.h5\" ") << (drop == 8 ? "source=\"sun\" " : "") << ">"; if (drop != 1) t << "<position x=\"0\" y=\"0\" z=\"0\" />"; if (drop != 2) { t << "<time t0=\"0\" dt=\"1\" "; if (drop != 7) t << "n=\"2\" "; t << "/>"; } if (drop != 3) t << "<hpitch x=\"1\" y=\"0\" z=\"0\" " << (drop == 5 ? "" : "n=\"1\" ") << "/>"; if (drop != 4) t << "<vpitch x=\"0\" y=\"1\" z=\"0\" " << (drop == 6 ? "" : "n=\"1\" ") << "/>"; t << "</" << kind[k] << ">"; InputParser *p = section("observer", t.b); std::vector<BaseObserver *> L; bool th = false; try { p->parseObservers(&L); } catch (IOexception &e) { th = true; } CHECK("rejected", th); vf_reach("missing");
}
