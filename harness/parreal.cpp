// C30: the observation loops in teams of several threads with the real particles and lattice elements
#include "ptc.h"
#include "bunch.h"
#include "beam.h"
#include "fields.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include "screen.h"
#include "snapshot.h"
#include "mesh.h"
#include "point_observer.h"
#include "fakeio.h"
extern "C" void vf_threads(int n, int order);
static void team(int lo, int max) { int T = vf_choice("threads", lo, max), o = vf_choice("order", 0, 1); vf_threads(T, 3 * o); }
#ifdef VF_DEEP
#define TMAX 4
#else
#define TMAX 2
#endif
static ChargedParticle *part(int k, int np) { double t[4]; V3 X[4], P[4], A[4]; for (int i = 0; i < np; i++) { t[i] = i * 1e-9; X[i] = V3(0.05 * k, 0.02 * i, 0.28 * i + 0.01 * k); P[i] = V3(0.1, 0.2 * k, 3.0); A[i] = V3(1e9 * i, 0, 2e8); } return traj_particle(k ? -1.0 : vf_real("charge", -2, 2), 1.0, np, t, X, P, A); }
static Bunch *bunch(int from, int n) { Bunch *b = new Bunch(); for (int i = 0; i < n; i++) b->Add(part(from + i, 2)); return b; }
static void same(const char *id, ElMagField a, ElMagField b) { char c[64]; nm(c, id, ".E"); EQV3(c, V3(a.E()), V3(b.E()), 1.0); nm(c, id, ".B"); EQV3(c, V3(a.B()), V3(b.B()), 1.0); }
template <class Src> static Src *source();
template <> Bunch *source<Bunch>() { return bunch(0, 2); }
template <> Beam *source<Beam>() { Beam *b = new Beam(); b->Add(bunch(0, 1)); b->Add(bunch(1, 1)); return b; }
template <> Lattice *source<Lattice>() { Lattice *l = new Lattice(); PlanarUndulator *u = new PlanarUndulator(Vector(0, 0, 0.5)); u->Setup(vf_real("B", 0.1, 1), 0.1, 4); l->addElement(u); TransverseGradientUndulator *g = new TransverseGradientUndulator(Vector(0, 0, 1.5)); g->Setup(0.5, 3.0, 0.1, 0.2, 3); l->addElement(g);
  l->addElement(new HardEdgeDipole(Vector(0, 1, 0), Vector(0, 0, 0), Vector(0, 0, -1), Vector(0, 0, 1), Vector(0, 0, 1))); l->addElement(new SoftEdgeDipole(Vector(0, 1, 0), Vector(0, 0, 1), Vector(0, 0, -1), 0.1, Vector(0, 0, 2), Vector(0, 0, 1), 0.1)); GaussianWave *w = new GaussianWave(0, Vector(0, 0, 1)); w->Setup(1e-3, std::complex<double>(1, 2), 0.3); l->addElement(w); GaussianWavePacket *p = new GaussianWavePacket(0, Vector(0, 0, 1)); p->Setup(1e-3, std::complex<double>(1, 2), 0.3, 1e-11); l->addElement(p); return l; }
static void trace(Bunch *s, Vector X, FieldTrace *tr) { s->integrateFieldTrace(X, tr); } static void trace(Beam *s, Vector X, FieldTrace *tr) { s->integrateFieldTrace(X, tr); } static void trace(Lattice *s, Vector X, FieldTrace *tr) { for (size_t i = 0; i < tr->get_N(); i++) tr->add(i, s->Field(tr->get_time(i), X)); }
static ElMagField at(Bunch *s, double t, Vector X) { return s->RetardedField(t, X); } static ElMagField at(Beam *s, double t, Vector X) { return s->RetardedField(t, X); } static ElMagField at(Lattice *s, double t, Vector X) { return s->Field(t, X); }
static int SRC() {
#ifdef VF_DEEP
  return vf_choice("source", 0, 2);
#else
  return 2 * vf_choice("source", 0, 1);
#endif
}
static double when() { return vf_real("t0", 0, 20e-9); }
template <class Src> static void screen() { Src *s = source<Src>(); double t0 = when(), dt = 0.5e-9; ScreenObserver<Src> o("f", Vector(0, 0, 1.6), Vector(0.3, 0, 0.1), Vector(0, 0.4, 0), 1, 2, t0, dt, 0.1e-9, 0.2e-9, 2); o.setSource(s); team(2, TMAX); o.integrate(); vf_threads(1, 0);
  for (int ix = 0; ix < 1; ix++) for (int iy = 0; iy < 2; iy++) { FieldTrace tr(t0 + (iy - 1) * 0.2e-9, dt, 2); tr.zero(); trace(s, Vector(0, (iy - 1) * 0.4, 1.6), &tr); for (int it = 0; it < 2; it++) same("cell", o.getField(ix, iy, it), tr.get_field((size_t)it)); } vf_reach("screen"); }
HARNESS(h_real_screen) { int k = SRC(); if (k == 0) screen<Lattice>(); else if (k == 1) screen<Bunch>(); else screen<Beam>(); }
template <class Src> static void snap() { Src *s = source<Src>(); double t = when(); ASSUME(t > 7e-9); SnapshotObserver<Src> o("f", Vector(0, 0, 1.6), Vector(0.3, 0, 0.1), Vector(0, 0.4, 0), 2, 1, t); o.setSource(s); team(2, TMAX); o.integrate(); vf_threads(1, 0);
  for (int ix = 0; ix < 2; ix++) same("cell", o.getField(ix, 0), at(s, t, Vector((ix - 0.5) * 0.3, 0, 1.6 + (ix - 0.5) * 0.1))); vf_reach("snap"); }
HARNESS(h_real_snap) { int k = SRC(); if (k == 0) snap<Lattice>(); else if (k == 1) snap<Bunch>(); else snap<Beam>(); }
template <class Src> static void point() { Src *s = source<Src>(); double t0 = when(), dt = 0.5e-9; PointObserver<Src> o("f", Vector(0, 0.1, 1.6), t0, dt, 2); o.setSource(s); team(2, TMAX); o.integrate(); vf_threads(1, 0); FieldTrace tr(t0, dt, 2); tr.zero(); trace(s, Vector(0, 0.1, 1.6), &tr); for (int it = 0; it < 2; it++) same("cell", o.getField((size_t)it), tr.get_field((size_t)it)); vf_reach("point"); }
HARNESS(h_real_point) { int k = SRC(); if (k == 0) point<Lattice>(); else if (k == 1) point<Bunch>(); else point<Beam>(); }
template <class Src> static void mesh() { Src *s = source<Src>(); double t0 = when(), dt = 0.5e-9; fio_reset(); long d[3] = {4, 3, 6}; double c[12] = {0, 0, 2, 1, 0, 2, 0, 1, 2, 1, 1, 2}, p[6] = {0.3, 0.3, 2, 0.6, 0.6, 2}; int tri[6] = {0, 1, 2, 2, 1, 3}; FioSet *f = fio_make("m.h5", "MeshCornerPoints", 0, 2, d); memcpy(f->d, c, sizeof c); fio_put(f, "Ncp", 4); d[0] = 2; f = fio_make("m.h5", "ObservationPosition", 0, 2, d); memcpy(f->d, p, sizeof p); fio_put(f, "Np", 2); f = fio_make("m.h5", "MeshTriangles", 1, 2, d); for (int i = 0; i < 6; i++) f->i[i] = tri[i]; fio_put(f, "Ntri", 2); f = fio_make("m.h5", "ObservationTime", 0, 1, d); f->d[0] = t0; f->d[1] = t0 + 1e-9; fio_put(f, "Nt", 2); fio_put(f, "dt", dt);
  MeshedScreen<Src> o("m.h5"); o.init(); o.zero(); o.setSource(s); team(2, TMAX); o.integrate(); vf_threads(1, 0); for (int i = 0; i < 2; i++) { FieldTrace tr(t0 + i * 1e-9, dt, 2), g = o.get_trace(i); tr.zero(); trace(s, Vector(p[3 * i], p[3 * i + 1], 2), &tr); for (int it = 0; it < 2; it++) same("cell", g.get_field((size_t)it), tr.get_field((size_t)it)); } vf_reach("mesh"); }
HARNESS(h_real_mesh) { int k = SRC(); if (k == 0) mesh<Lattice>(); else if (k == 1) mesh<Bunch>(); else mesh<Beam>(); }
