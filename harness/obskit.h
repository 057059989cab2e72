// Observers with sources whose fields are arbitrary functions: lattice elements and particles (stand-in for the class ChargedParticle) return
// uninterpreted functions of time and place, everything above them (Bunch, Beam, Lattice, observers) is the real code.
#pragma once
#include "common.h"
#include "fields.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include "screen.h"
#include "snapshot.h"
#include "mesh.h"
#include "point_observer.h"
#include "fakeio.h"
#ifndef VF_DEEP
#define DEEP 0
#else
#define DEEP 1
#endif
static V3 fval(int id, char k, double t, V3 X) { char n[6] = {'p', (char)('0' + id), k, 'x', 0, 0}; double a[4] = {t, X.x, X.y, X.z}; V3 r; r.x = vf_fn(n, 4, a); n[3] = 'y'; r.y = vf_fn(n, 4, a); n[3] = 'z'; r.z = vf_fn(n, 4, a); return r; }
static ElMagField fem(int id, double t, Vector X) { return ElMagField(fval(id, 'E', t, V3(X)).v(), fval(id, 'B', t, V3(X)).v()); }
static const void *preg[8]; static int pcnt = 0;
static int pid(const ChargedParticle *p) { for (int i = 0; i < pcnt; i++) if (preg[i] == (const void *)p) return i; vf_fail("foreign-particle"); return 0; }
ChargedParticle::ChargedParticle() { if (pcnt < 8) preg[pcnt++] = this; }
ChargedParticle::~ChargedParticle() {}
ElMagField ChargedParticle::RetardedField(double t, Vector X) { return fem(pid(this), t, X); }
ElMagField ChargedParticle::RetardedField(int, Vector) { vf_fail("wrong-call"); return ElMagField(); }
double ChargedParticle::RetardedTime(int, Vector) { vf_fail("wrong-call"); return 0; }
void ChargedParticle::integrateFieldTrace(Vector X, FieldTrace *tr) { for (size_t i = 0; i < tr->get_N(); i++) tr->add(i, fem(pid(this), tr->get_time(i), X)); }
void ChargedParticle::CoordinatesAtTime(double t, Vector *X, Vector *P) { *X = fval(pid(this), 'X', t, V3()).v(); *P = fval(pid(this), 'P', t, V3()).v(); }
double ChargedParticle::TrajTime(int) { vf_fail("wrong-call"); return 0; }
Vector ChargedParticle::TrajPoint(int) { vf_fail("wrong-call"); return VectorZero; }
Vector ChargedParticle::TrajMomentum(int) { vf_fail("wrong-call"); return VectorZero; }
Vector ChargedParticle::TrajAccel(int) { vf_fail("wrong-call"); return VectorZero; }
void ChargedParticle::initTrajectory(double, Vector, Vector, Vector) { vf_fail("wrong-call"); }
struct Fn : public GeneralField { int id; Fn(int i) : id(i) {} bool is_external() override { return true; } ElMagField Field(double t, Vector X) override { return fem(id, t, X); } };
static int nsrc;   // number of contributions of the source
static void make(Lattice *&l) { l = new Lattice(); nsrc = vf_choice("elements", 0, 2); for (int i = 0; i < nsrc; i++) l->addElement(new Fn(i)); }
static void make(Bunch *&b) { pcnt = 0; b = new Bunch(); nsrc = vf_choice("particles", 0, 2); for (int i = 0; i < nsrc; i++) b->Add(new ChargedParticle()); }
static void make(Beam *&b) { pcnt = 0; b = new Beam(); int c = vf_choice("composition", 0, 4); int n[5][3] = {{0, 0, 0}, {1, 1, 0}, {2, 0, 0}, {0, 1, 0}, {1, 0, 2}}; nsrc = 0; for (int k = 0; k < 3 && c; k++) { Bunch *q = new Bunch(); for (int i = 0; i < n[c][k]; i++, nsrc++) q->Add(new ChargedParticle()); b->Add(q); } }
static V3 sumf(char k, double t, V3 X) { V3 r; for (int i = 0; i < nsrc; i++) r = add(r, fval(i, k, t, X)); return r; }
static V3 cont(int tag, int k, int c) { double a[3] = {(double)tag, (double)k, (double)c}; V3 r; r.x = vf_fn("c", 3, a); a[2] += 1; r.y = vf_fn("c", 3, a); a[2] += 1; r.z = vf_fn("c", 3, a); return r; }
static double cval(int tag, int k, int c) { double a[3] = {(double)tag, (double)k, (double)c}; return vf_fn("c", 3, a); }
static ElMagField cfield(int tag, int k) { return ElMagField(cont(tag, k, 0).v(), cont(tag, k, 3).v()); }
static void eqf(const char *id, ElMagField f, V3 e, V3 b) { char c[64]; nm(c, id, ".E"); EQV3(c, V3(f.E()), e, 1.0); nm(c, id, ".B"); EQV3(c, V3(f.B()), b, 1.0); }
static void eqc(const char *id, ElMagField f, int tag, int k) { eqf(id, f, cont(tag, k, 0), cont(tag, k, 3)); }
// mesh file: Np cells, Ncp corners, Nt samples (Nt<0: no timing, no fields)
static void meshfile(const char *fn, int Ncp, const V3 *cp, int Np, const int *tri, const V3 *pts, int Nt, double dt, const double *t0, int tag) {
  long d[3] = {Ncp, 3, 6}; FioSet *s = fio_make(fn, "MeshCornerPoints", 0, 2, d); for (int i = 0; i < Ncp; i++) { s->d[3 * i] = cp[i].x; s->d[3 * i + 1] = cp[i].y; s->d[3 * i + 2] = cp[i].z; } fio_put(s, "Ncp", Ncp);
  d[0] = Np; s = fio_make(fn, "ObservationPosition", 0, 2, d); for (int i = 0; i < Np; i++) { s->d[3 * i] = pts[i].x; s->d[3 * i + 1] = pts[i].y; s->d[3 * i + 2] = pts[i].z; } fio_put(s, "Np", Np);
  s = fio_make(fn, "MeshTriangles", 1, 2, d); for (int i = 0; i < 3 * Np; i++) s->i[i] = tri[i]; fio_put(s, "Ntri", Np);
  if (Nt < 0) return; s = fio_make(fn, "ObservationTime", 0, 1, d); for (int i = 0; i < Np; i++) s->d[i] = t0[i]; fio_put(s, "Nt", Nt); fio_put(s, "dt", dt);
  if (tag < 0) return; d[1] = Nt; d[2] = 6; s = fio_make(fn, "ElMagField", 0, 3, d); for (int i = 0; i < Np * Nt; i++) for (int c = 0; c < 6; c++) s->d[6 * i + c] = cval(tag, i, c);
}
static const int TRI[9] = {0, 1, 2, 2, 1, 3, 3, 4, 2};
#ifndef _OPENMP
extern "C" int omp_get_thread_num() { return 0; }
extern "C" int omp_get_num_threads() { return 1; }
#endif
