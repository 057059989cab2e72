// The real main program on 1..3 nodes; oracle: all particles tracked by a single beam, observed directly.
#include "nodes.h"
#include "pugixml.hpp"
#include "muParser.h"
#include "parser.h"
#include "filekit.h"
#include "point_observer.h"
#include "screen.h"
#include "mesh.h"
#include "observer.h"
#include "logger.h"
#ifndef VF_DEEP
#define DEEP 0
#else
#define DEEP 1
#endif
#include <iostream>
#include <fstream>
#include <sstream>
// files of the operating system (memory statistics) can not be opened
namespace std { struct vf_ifstream { vf_ifstream() {} explicit vf_ifstream(const char *) {} explicit vf_ifstream(const string &) {} void open(const char *) {} void open(const string &) {} void close() {} bool is_open() const { return false; } bool good() const { return false; } bool fail() const { return true; } bool eof() const { return true; } explicit operator bool() const { return false; } bool operator!() const { return true; } template <class T> vf_ifstream &operator>>(T &) { return *this; } };
inline vf_ifstream &getline(vf_ifstream &f, string &) { return f; } }
namespace std { struct vf_sstream { template <class T> vf_sstream &operator<<(const T &) { return *this; } string str() const { return string(); } void str(const string &) {} void clear() {} }; }   // only file names below /proc
#define ifstream vf_ifstream
#define stringstream vf_sstream
#define ostringstream vf_sstream
#define main teufel_main
#include "teufel_hybrid.cpp"
#undef main
#undef ifstream
#undef stringstream
#undef ostringstream
#ifndef _OPENMP
extern "C" int omp_get_max_threads() { return 1; }
extern "C" int omp_get_thread_num() { return 0; }
extern "C" int omp_get_num_threads() { return 1; }
#endif
double mu::Parser::input(const char *) { return 0.0; }
// ---- arbitrary numbers by name
static struct { char n[24]; double v; } memo[80]; static int nmemo;
static double sym(const char *n) { for (int i = 0; i < nmemo; i++) if (!strcmp(memo[i].n, n)) return memo[i].v; double v = !strcmp(n, "dt") || ((*n == 'q' || *n == 's') && n[3] == 'z') ? realp(n) : real(n); if (nmemo < 80) { strcpy(memo[nmemo].n, n); memo[nmemo++].v = v; } else vf_fail("harness: symbols"); return v; }
static V3 sym3(const char *n) { char b[24]; V3 r; nm(b, n, "x"); r.x = sym(b); nm(b, n, "y"); r.y = sym(b); nm(b, n, "z"); r.z = sym(b); return r; }
// ---- physics of a particle: arbitrary functions of its state and of the field it sees
static Vector fn3(const char *n, int k, double *a) { char b[8]; int l = strlen(n); strcpy(b, n); b[l + 1] = 0; V3 r; b[l] = 'x'; r.x = vf_fn(b, k, a); b[l] = 'y'; r.y = vf_fn(b, k, a); b[l] = 'z'; r.z = vf_fn(b, k, a); return r.v(); }
void ChargedParticle::InitVay(double step, GeneralField *f) {
  if (NP < 1) { vf_fail("no-start-point"); return; } dt = step; t_current = Time.back(); X_current = X.back(); P_current = P.back(); ElMagField g = f->Field(t_current, X_current); E_current = g.E(); B_current = g.B();
  double a[8] = {Charge, Mass, dt, P_current.x, P_current.y, E_current.x, B_current.y, P_current.z}; VY_p_i1 = fn3("vi", 8, a); A_current = fn3("ai", 8, a); A.back() = A_current; }
void ChargedParticle::StepVay(GeneralField *f) {
  t_current += dt; double c[7] = {X_current.x, X_current.y, X_current.z, VY_p_i1.x, VY_p_i1.y, VY_p_i1.z, dt}; X_current = fn3("xs", 7, c); ElMagField g = f->Field(t_current, X_current); E_current = g.E(); B_current = g.B();
  double a[8] = {Charge, Mass, VY_p_i1.x, VY_p_i1.y, VY_p_i1.z, E_current.x, E_current.y, B_current.z}; P_current = fn3("ps", 8, a); P_current.z = 1.0 + P_current.z * P_current.z; A_current = fn3("as", 8, a); VY_p_i1 = fn3("vs", 8, a); storeTrajectoryPoint(t_current, X_current, P_current, A_current); }
static double track(const char *n, std::vector<double> &T, std::vector<Vector> &X, std::vector<Vector> &P, std::vector<Vector> &A) { double h = 0.0; for (size_t i = 0; i < T.size(); i++) { double a[8] = {h, T[i], X[i].x, X[i].y, X[i].z, P[i].y, A[i].x, (double)i}; h = vf_fn(n, 8, a); } return h; }
static ElMagField rad(double q, double h, double t, Vector X) { double a[6] = {q, h, t, X.x, X.y, X.z}; Vector e = fn3("re", 6, a); return ElMagField(e, fn3("rb", 6, a)); }
ElMagField ChargedParticle::RetardedField(double t, Vector O) { return rad(Charge, track("h", Time, X, P, A), t, O); }
ElMagField ChargedParticle::RetardedField(int, Vector) { vf_fail("wrong-call"); return ElMagField(); }
void ChargedParticle::integrateFieldTrace(Vector O, FieldTrace *tr) { double h = track("h", Time, X, P, A); for (size_t i = 0; i < tr->get_N(); i++) tr->add(i, rad(Charge, h, tr->get_time(i), O)); }
void ChargedParticle::CoordinatesAtTime(double t, Vector *x, Vector *p) { double h = 0.0; for (int i = 0; i < NP; i++) { double a[6] = {h, Time[i], X[i].x, X[i].y, X[i].z, P[i].z}; h = vf_fn("g", 6, a); } double a[2] = {h, t}; *x = fn3("cx", 2, a); *p = fn3("cp", 2, a); }
// ---- external and interaction fields
struct Ext : public GeneralField { bool is_external() override { return true; } ElMagField Field(double t, Vector X) override { double a[4] = {t, X.x, X.y, X.z}; Vector e = fn3("fe", 4, a); return ElMagField(e, fn3("fb", 4, a)); } };
static int out_written, bad_node;
struct Inter : public InteractionField { double s; int steps; Inter() : s(0.0), steps(-1) {}
  double sum(Beam *b) { double r = 0.0; for (int i = 0; i < b->getNOB(); i++) for (int j = 0; j < b->getBunch(i)->getNOP(); j++) { ChargedParticle *p = b->getBunch(i)->getParticle(j); Vector x = p->getPosition(), m = p->getMomentum(); double a[6] = {p->getCharge(), x.x, x.y, x.z, m.x, m.z}; r += vf_fn("drive", 6, a); } return r; }
  void init(Beam *b) override { double a[3] = {0.0, sum(b), b->getTimeStep()}; s = vf_fn("is", 3, a); steps = 0; } void step(Beam *b) override { double a[3] = {s, sum(b), b->getTimeStep()}; s = vf_fn("is", 3, a); steps++; }
  ElMagField Field(double t, Vector X) override { if (steps < 0) return ElMagFieldZero; double a[5] = {s, t, X.x, X.y, X.z}; Vector e = fn3("ie", 5, a); return ElMagField(e, fn3("ib", 5, a)); } void write_output() override { if (me) bad_node++; out_written++; EQI("output-steps", steps, 2 + DEEP); } };
// ---- what the input file says
static int noext, nb, np[3], inter, feat, var, steps; static std::vector<BaseObserver *> made;
static double dtv() { return sym("dt"); }
static Beam *mkbeam(bool random) { Beam *b = new Beam(); char n[8]; for (int i = 0; i < nb; i++) { Bunch *k = new Bunch(); for (int j = 0; j < np[i]; j++) { ChargedParticle *p = new ChargedParticle(i ? -2.0 : -1.0, i ? 3.0 : 1.0); strcpy(n, random && me ? "r00" : "p00"); n[1] += i; n[2] += j; V3 x = sym3(n); n[0]++; V3 m = sym3(n); n[0]++; p->initTrajectory(sym(n), x.v(), m.v(), VectorZero); k->Add(p); } b->Add(k); } return b; }
static void setup(Beam *b) { b->setTimeStep(dtv()); b->setNOTS(steps); b->setTrackingMethod(TRACKING_VAY); }
static Lattice *mklattice() { Lattice *l = new Lattice(); if (!noext) l->addElement(new Ext()); return l; }
InputParser::InputParser(const pugi::xml_node node) { root = node; calc = 0; }
InputParser::~InputParser() {}
int InputParser::parseLattice(Lattice *l) { if (noext) return 0; l->addElement(new Ext()); return 1; }
// a logger that records what it sees
static struct { int n; double v[5][2][7]; int cnt[5]; } recs;
struct Rec : public Logger { Bunch *b; int every; Rec(Bunch *k, int e) : b(k), every(e) {} bool log_requested(int s) override { return s % every == 0; } int WriteData() override { if (me) bad_node++; out_written++; return 0; }
  void update() override { if (me) { bad_node++; return; } int n = recs.n; if (n >= 5) return; recs.cnt[n] = b->getNOP(); for (int i = 0; i < b->getNOP() && i < 2; i++) { ChargedParticle *p = b->getParticle(i); Vector x = p->getPosition(), m = p->getMomentum(); double w[7] = {p->getTime(), x.x, x.y, x.z, m.x, m.y, m.z}; for (int k = 0; k < 7; k++) recs.v[n][i][k] = w[k]; } recs.n++; } };

int InputParser::parseBeam(Beam *b, std::vector<Logger *> *logs, ProbeInfo *pr) { Beam *m = mkbeam(true); for (int i = 0; i < nb; i++) b->Add(m->getBunch(i)); if (feat == 0 && nb) { Rec *r = new Rec(b->getBunch(nb - 1), var + 1); logs->push_back(r); } if (feat == 1) { pr->requested = true; pr->filename = "probe.h5"; pr->step = 1; pr->number = var + 1; } return nb; }
void InputParser::parseTracking(Beam *b, std::vector<watch_t> *w, std::list<InteractionField *> *f) { setup(b); if (inter) f->push_back(new Inter()); if (feat == 0) { watch_t x; x.type = hdf5; x.step = var; x.filename = "a.h5"; w->push_back(x); x.type = sdds; x.step = steps - var; x.filename = "b.sdds"; w->push_back(x); x.step = steps + 1; x.filename = "c.sdds"; w->push_back(x); x.type = hdf5; x.step = steps; x.filename = "d.h5"; w->push_back(x); x.type = sdds; x.step = 1; x.filename = "e.sdds"; w->push_back(x); } }
template <class S> static BaseObserver *mkobs(int k, const char *fn) { V3 O = sym3("O"), H = V3(1, 0, 0), V = V3(0, 1, 0); if (k == 0) return new PointObserver<S>(fn, O.v(), sym("t0"), dtv(), 2); if (k == 1) return new SnapshotObserver<S>(fn, O.v(), H.v(), V.v(), 2, 1, sym("t0")); if (k == 2) return new ScreenObserver<S>(fn, O.v(), H.v(), V.v(), 1, 2, sym("t0"), dtv(), 0.0, 0.0, 1); MeshedScreen<S> *m = new MeshedScreen<S>("mesh.h5"); m->init(); m->zero(); return m; }
static void mkmesh(const char *fn) { long d[2] = {3, 3}; FioSet *q = fio_make(fn, "MeshCornerPoints", 0, 2, d); double c[9] = {0, 0, 0, 1, 0, 0, 0, 1, 0}; for (int i = 0; i < 9; i++) q->d[i] = c[i]; fio_put(q, "Ncp", 3); d[0] = 1; q = fio_make(fn, "ObservationPosition", 0, 2, d); V3 O = sym3("O"); q->d[0] = O.x; q->d[1] = O.y; q->d[2] = O.z; fio_put(q, "Np", 1); q = fio_make(fn, "MeshTriangles", 1, 2, d); for (int i = 0; i < 3; i++) q->i[i] = i; fio_put(q, "Ntri", 1); q = fio_make(fn, "ObservationTime", 0, 1, d); q->d[0] = sym("t0"); fio_put(q, "Nt", 2); fio_put(q, "dt", dtv()); }
void InputParser::parseObservers(std::vector<BaseObserver *> *l) { if (feat == 2) l->push_back(mkobs<Beam>(var, "f.h5")); if (feat == 3) { BaseObserver *o = mkobs<Lattice>(var, "f.h5"); o->setSourceType(LatticeObservation); l->push_back(o); } if (feat == 4) { l->push_back(mkobs<Beam>(0, "f.h5")); l->push_back(mkobs<Beam>(1, "g.h5")); BaseObserver *o = mkobs<Lattice>(0, "h.h5"); o->setSourceType(LatticeObservation); l->push_back(o); } }
// ---- run
static int prog() { static char a0[] = "teufel", a1[] = "in.xml"; char *a[3] = {a0, a1, 0}; return teufel_main(2, a); }
static int base_nf;
static void before() { fio_reset(); if ((feat == 2 || feat == 3) && var == 3) mkmesh("mesh.h5"); base_nf = fio_nf; out_written = 0; recs.n = 0; }
static int files_written() { int n = fio_nsd; for (int i = 0; i < fio_ns; i++) n += fio_sets[i].written != 0; return n; }
static void after(bool fin) { if (me) CHECK("only-root-writes", fio_nf == base_nf && fio_nsd == 0); (void)fin; }
static int TOT;
// reference: everything on one node
static Beam *rfb; static Lattice *rl; static Inter *ri;
static Bunch *refcat;  // all particles as one bunch (order of the beam)
static void ref_start() { rfb = mkbeam(false); setup(rfb); rl = mklattice(); ri = 0; if (inter) { ri = new Inter(); rl->addElement(ri); } rfb->setupTracking(rl); if (ri) ri->init(rfb); }
static void ref_step() { rfb->doStep(rl); if (ri) ri->step(rfb); }
static void beam_layout() { static const int L[11][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 0, 0}, {1, 2, 0, 0}, {2, 1, 0, 0}, {2, 1, 1, 0}, {2, 0, 2, 0}, {2, 2, 1, 0}, {2, 2, 2, 0}, {2, 3, 1, 0}, {3, 1, 2, 1}}; int k = vf_choice("layout", 0, 10); nb = L[k][0]; TOT = 0; for (int i = 0; i < 3; i++) TOT += np[i] = L[k][i + 1]; steps = 2 + DEEP; me = noext = 0; nmemo = 0; pugi::xml_document::file_text() = "<teufel description=\"d\" author=\"a\"></teufel>"; }
static bool go(int lo, int hi) { int n = vf_choice("nodes", lo, hi); return run_nodes(n, prog, before, after); }
HARNESS(h_log) { beam_layout(); feat = 0; var = vf_choice("when", 0, 2); inter = vf_choice("interaction", 0, 1); if (!go(1, 3)) return; EQI("no-file-elsewhere", bad_node, 0); CHECK("no-watch-beyond", fio_table("c.sdds") == 0); EQI("outputs", out_written, inter + (nb ? 1 : 0)); ref_start(); int k = 0;
  for (int s = 0; s <= steps; s++) { if (s) ref_step(); if (s == var) { rfb->WriteWatchPointHDF5("ra.h5"); samefile("a.h5", "ra.h5"); } if (s == steps) { rfb->WriteWatchPointHDF5("rd.h5"); samefile("d.h5", "rd.h5"); } if (s == 1) { rfb->WriteWatchPointSDDS("re.sdds"); sametable("e.sdds", "re.sdds"); } if (s == steps - var) { rfb->WriteWatchPointSDDS("rb.sdds"); sametable("b.sdds", "rb.sdds"); }
    if (nb && (s == 0 || s % (var + 1) == 0)) { Bunch *b = rfb->getBunch(nb - 1); if (k < recs.n) { EQI("logged-particles", recs.cnt[k], b->getNOP()); for (int i = 0; i < b->getNOP(); i++) { ChargedParticle *p = b->getParticle(i); Vector x = p->getPosition(), m = p->getMomentum(); double w[7] = {p->getTime(), x.x, x.y, x.z, m.x, m.y, m.z}; for (int c = 0; c < 7; c++) EQ("logged", recs.v[k][i][c], w[c]); } } k++; } }
  if (nb) EQI("records", recs.n, k); vf_reach("log"); }
template <class S> static void refobs(int k, const char *f, const char *o, S *src) { BaseObserver *r; if (k == 3) { mkmesh("mesh2.h5"); MeshedScreen<S> *m = new MeshedScreen<S>("mesh2.h5"); m->init(); m->zero(); r = m; o = "mesh2.h5"; f = "mesh.h5"; } else r = mkobs<S>(k, o); Observer<S> *q = dynamic_cast<Observer<S> *>(r); q->setSource(src); q->integrate(); if (SnapshotObserver<Beam> *s = dynamic_cast<SnapshotObserver<Beam> *>(r)) s->storeParticlePositions(); r->generateOutput(); if (k == 0) sametable(f, o); else samefile(f, o); }
static void ref_all() { ref_start(); for (int s = 0; s < steps; s++) ref_step(); }
HARNESS(h_beamobs) { beam_layout(); feat = 2; var = vf_choice("observer", 0, 3); inter = var == 0; if (!go(1, 3)) return; EQI("only-root", bad_node, 0); ref_all(); refobs<Beam>(var, "f.h5", "r.h5", rfb); vf_reach("beamobs"); }
HARNESS(h_latobs) { beam_layout(); feat = 3; var = vf_choice("observer", 0, 3); inter = vf_choice("interaction", 0, 1); noext = vf_choice("empty", 0, 1); if (!go(1, 3)) return; Lattice *l = mklattice(); refobs<Lattice>(var, "f.h5", "r.h5", l); vf_reach("latobs"); }
HARNESS(h_several) { beam_layout(); feat = 4; inter = 0; if (!go(1, 3)) return; ref_all(); refobs<Beam>(0, "f.h5", "rf.h5", rfb); refobs<Beam>(1, "g.h5", "rg.h5", rfb); Lattice *l = mklattice(); refobs<Lattice>(0, "h.h5", "rh.h5", l); vf_reach("several"); }
HARNESS(h_probe) { beam_layout(); feat = 1; var = vf_choice("number", 0, 4); inter = 0; int n = vf_choice("nodes", 1, 3); if (!run_nodes(n, prog, before, after)) return; int per = (TOT + n - 1) / n; bool wide = var + 1 > per; ref_start(); int want = var + 1 < TOT ? var + 1 : TOT; FioSet *s = 0; for (int i = 0; i < fio_ns; i++) if (fio_sets[i].file == fio_file("probe.h5")) s = &fio_sets[i]; if (!want) { vf_reach("probe"); return; }
  CHECK("probe-file", s != 0); if (!s) return; EQI(wide && n > 1 ? "probe-count-beyond-node" : "probe-count", s->n, 16L * want * (steps + 1)); if (s->n != 16L * want * (steps + 1)) return;
  for (int k = 0; k <= steps; k++) { if (k) ref_step(); int c = 0; for (int i = 0; i < nb; i++) for (int j = 0; j < np[i] && c < want; j++, c++) { double w[16]; rfb->getBunch(i)->getParticle(j)->bufferProbe(w); for (int q = 0; q < 16; q++) EQ("probe", s->d[(k * want + c) * 16 + q], w[q]); } } vf_reach("probe"); }
HARNESS(h_badinput) { int n = vf_choice("nodes", 1, 3), k = vf_choice("text", 0, 1); me = 0; nmemo = 0; nb = 0; feat = 9; pugi::xml_document::file_text() = k ? "<other />" : "<teufel><x></teufel>"; N_nodes = n; ncoll = 0; if (!k) { vf_reach("bad"); return; } for (int r = 0; r < n; r++) { me = r; cpos = nbar = 0; bool th = false; try { prog(); } catch (IOexception &e) { th = true; } catch (Unwind &) {} CHECK("rejected", th); } vf_reach("bad"); }
