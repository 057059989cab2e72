#include "obskit.h"
// ---------------------------------------------------------------- C13, C14
static int half(int n) { return n / 2; }
template <class Src> static void screen() {
  int Nx = vf_choice("Nx", 1, 3), Ny = vf_choice("Ny", 1, 3), N = vf_choice("N", 1, 2); V3 O = real3("O"), DX = real3("dX"), DY = real3("dY"), pe = real3("pe"), pb = real3("pb"); double t0 = real("t0"), dt = realp("dt"), dtx = real("dtx"), dty = real("dty");
  Src *src; make(src); { ScreenObserver<Src> s("f", O.v(), DX.v(), DY.v(), Nx, Ny, t0, dt, dtx, dty, N); s.setSource(src); s.setField(Nx - 1, 0, N - 1, ElMagField(pe.v(), pb.v())); s.integrate(); EQI("size", s.getBufferSize(), 6L * Nx * Ny * N);
  for (int ix = 0; ix < Nx; ix++) for (int iy = 0; iy < Ny; iy++) for (int it = 0; it < N; it++) { double a = ix - half(Nx), b = iy - half(Ny), t = t0 + dtx * a + dty * b + it * dt; V3 X = add(O, add(mul(DX, a), mul(DY, b))), e = sumf('E', t, X), m = sumf('B', t, X);
    if (ix == Nx - 1 && iy == 0 && it == N - 1) { e = add(e, pe); m = add(m, pb); } eqf("cell", s.getField(ix, iy, it), e, m); } }
  delete src; vf_reach("screen");
}
HARNESS(h_screen) { int k = vf_choice("source", 0, 2); if (k == 0) screen<Lattice>(); else if (k == 1) screen<Bunch>(); else screen<Beam>(); }
template <class Src> static void snap() {
  int Nx = vf_choice("Nx", 1, 3), Ny = vf_choice("Ny", 1, 3); V3 O = real3("O"), DX = real3("dX"), DY = real3("dY"); double t = real("t"); Src *src; make(src); { SnapshotObserver<Src> s("f", O.v(), DX.v(), DY.v(), Nx, Ny, t); s.setSource(src); s.integrate(); EQI("size", s.getBufferSize(), 6L * Nx * Ny);
  for (int ix = 0; ix < Nx; ix++) for (int iy = 0; iy < Ny; iy++) { double a = ix - 0.5 * (Nx - 1), b = iy - 0.5 * (Ny - 1); V3 X = add(O, add(mul(DX, a), mul(DY, b))); eqf("cell", s.getField(ix, iy), sumf('E', t, X), sumf('B', t, X)); } } delete src; vf_reach("snap");
}
HARNESS(h_snap) { int k = vf_choice("source", 0, 2); if (k == 0) snap<Lattice>(); else if (k == 1) snap<Bunch>(); else snap<Beam>(); }
template <class Src> static void point() {
  int N = vf_choice("N", 0, 4); V3 O = real3("O"), pe = real3("pe"), pb = real3("pb"); double t0 = real("t0"), dt = realp("dt"); Src *src; make(src); { PointObserver<Src> s("f", O.v(), t0, dt, N); s.setSource(src); if (N) s.setField(N - 1, ElMagField(pe.v(), pb.v())); s.integrate(); EQI("size", s.getBufferSize(), 6L * N);
  for (int it = 0; it < N; it++) { double t = t0 + it * dt; V3 e = sumf('E', t, O), b = sumf('B', t, O); if (it == N - 1) { e = add(e, pe); b = add(b, pb); } eqf("cell", s.getField((size_t)it), e, b); } } delete src; vf_reach("point");
}
HARNESS(h_point) { int k = vf_choice("source", 0, 2); if (k == 0) point<Lattice>(); else if (k == 1) point<Bunch>(); else point<Beam>(); }
template <class Src> static void mesh() {
  int Np = vf_choice("Np", 1, 3), N = vf_choice("N", 0, 2), pre = vf_choice("fields", 0, 1); V3 cp[5], X[3]; char b[8]; for (int i = 0; i < Np + 2; i++) cp[i] = V3(i, i * i, 1); for (int i = 0; i < Np; i++) { strcpy(b, "X0"); b[1] += i; X[i] = real3(b); } double dt = realp("dt"), t0[3] = {real("t0"), real("t1"), real("t2")};
  fio_reset(); meshfile("m.h5", Np + 2, cp, Np, TRI, X, N, dt, t0, pre ? 1 : -1); Src *src; make(src); { MeshedScreen<Src> s("m.h5"); s.init(); s.setSource(src); EQI("Np", s.get_Np(), Np); EQI("Nt", s.get_Nt(), N); EQ("dt", s.get_dt(), dt); s.integrate(); EQI("size", s.getBufferSize(), 6L * Np * N);
  for (int ip = 0; ip < Np; ip++) { EQV3("point", V3(s.get_point(ip)), X[ip]); EQ("t0", s.get_t0(ip), t0[ip]); FieldTrace tr = s.get_trace(ip); for (int it = 0; it < N; it++) { double t = t0[ip] + it * dt; V3 e = sumf('E', t, X[ip]), m = sumf('B', t, X[ip]); if (pre) { e = add(e, cont(1, ip * N + it, 0)); m = add(m, cont(1, ip * N + it, 3)); } eqf("cell", tr.get_field((size_t)it), e, m); } }
  s.zero(); for (int ip = 0; ip < Np; ip++) for (int it = 0; it < N; it++) eqf("zero", s.get_trace(ip).get_field((size_t)it), V3(), V3()); } delete src; vf_reach("mesh");
}
HARNESS(h_mesh) { int k = vf_choice("source", 0, 2); if (k == 0) mesh<Lattice>(); else if (k == 1) mesh<Bunch>(); else mesh<Beam>(); }
HARNESS(h_source) {   // what is observed is what was asked for, the beam by default
  ScreenObserver<Beam> a("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), 1, 1, 0, 1, 0, 0, 1); SnapshotObserver<Lattice> b("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), 1, 1, 0); PointObserver<Bunch> c("f", VectorZero, 0, 1, 1); CHECK("default", a.getSourceType() == BeamObservation && b.getSourceType() == BeamObservation && c.getSourceType() == BeamObservation);
  a.setSourceType(LatticeObservation); b.setSourceType(LatticeObservation); CHECK("set", a.getSourceType() == LatticeObservation && b.getSourceType() == LatticeObservation && c.getSourceType() == BeamObservation); vf_reach("source");
}
// ---------------------------------------------------------------- C12
template <class F> static bool throws(F f) { try { f(); } catch (IOexception &e) { return true; } catch (RANGEexception &e) { return true; } return false; }
// o, p, q: observers of the same structure, o and q with content 1 and 2, n samples; get(obs, k)
template <class O, class G> static void exchange(O &o, O &p, O &q, int n, G get) {
  EQI("announced", o.getBufferSize(), 6L * n); double *b = o.getBuffer(), *c = q.getBuffer(); for (int k = 0; k < n; k++) for (int i = 0; i < 6; i++) { EQ("exported", b[6 * k + i], cval(1, k, i)); b[6 * k + i] += c[6 * k + i]; }
  for (int k = 0; k < n; k++) eqc("kept", get(o, k), 1, k); int bad = vf_int("badsize", 0, 1 << 20); if (bad != 6 * n) { CHECK("rejected", throws([&]() { p.fromBuffer(b, bad); })); for (int k = 0; k < n; k++) eqf("untouched", get(p, k), V3(), V3()); }
  p.fromBuffer(b, 6 * n); for (int k = 0; k < n; k++) eqf("imported", get(p, k), add(cont(1, k, 0), cont(2, k, 0)), add(cont(1, k, 3), cont(2, k, 3))); delete[] b; delete[] c;
  double *r = p.getBuffer(); for (int k = 0; k < n; k++) for (int i = 0; i < 6; i++) EQ("again", r[6 * k + i], cval(1, k, i) + cval(2, k, i)); q.fromBuffer(r, 6 * n); for (int k = 0; k < n; k++) eqf("overwritten", get(q, k), add(cont(1, k, 0), cont(2, k, 0)), add(cont(1, k, 3), cont(2, k, 3))); delete[] r;
}
HARNESS(h_buf_screen) {
  int Nx = vf_choice("Nx", 1, 3), Ny = vf_choice("Ny", 1, 3), N = vf_choice("N", 0, 2); typedef ScreenObserver<Beam> T; T o("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), Nx, Ny, 0, 1, 0, 0, N), p("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), Nx, Ny, 0, 1, 0, 0, N), q("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), Nx, Ny, 0, 1, 0, 0, N);
  for (int k = 0; k < Nx * Ny * N; k++) { o.setField(k / (Ny * N), k / N % Ny, k % N, cfield(1, k)); q.setField(k / (Ny * N), k / N % Ny, k % N, cfield(2, k)); }
  CHECK("range", throws([&]() { o.getField(Nx, 0, 0); }) && throws([&]() { o.getField(0, Ny, 0); }) && throws([&]() { o.getField(0, 0, N); }) && throws([&]() { o.setField(Nx, 0, 0, ElMagField()); }) && throws([&]() { o.setField(0, Ny, 0, ElMagField()); }) && throws([&]() { o.setField(0, 0, N, ElMagField()); }) && throws([&]() { o.setField(-1, 0, 0, ElMagField()); }) && throws([&]() { o.getField(0, -1, 0); }));
  exchange(o, p, q, Nx * Ny * N, [&](T &s, int k) { return s.getField(k / (Ny * N), k / N % Ny, k % N); }); vf_reach("buffer");
}
HARNESS(h_buf_snap) {
  int Nx = vf_choice("Nx", 1, 4), Ny = vf_choice("Ny", 1, 4); typedef SnapshotObserver<Beam> T; T o("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), Nx, Ny, 0), p("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), Nx, Ny, 0), q("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), Nx, Ny, 0);
  for (int k = 0; k < Nx * Ny; k++) { o.setField(k / Ny, k % Ny, cfield(1, k)); q.setField(k / Ny, k % Ny, cfield(2, k)); } CHECK("range", throws([&]() { o.getField(Nx, 0); }) && throws([&]() { o.getField(0, Ny); }) && throws([&]() { o.setField(Nx, 0, ElMagField()); }) && throws([&]() { o.setField(0, Ny, ElMagField()); }) && throws([&]() { o.getField(-1, 0); }));
  exchange(o, p, q, Nx * Ny, [&](T &s, int k) { return s.getField(k / Ny, k % Ny); }); vf_reach("buffer");
}
HARNESS(h_buf_point) {
  int N = vf_choice("N", 0, 5); typedef PointObserver<Beam> T; T o("f", VectorZero, 0, 1, N), p("f", VectorZero, 0, 1, N), q("f", VectorZero, 0, 1, N); for (int k = 0; k < N; k++) { o.setField(k, cfield(1, k)); q.setField(k, cfield(2, k)); }
  CHECK("range", throws([&]() { o.getField((size_t)N); }) && throws([&]() { o.setField((size_t)N, ElMagField()); }) && throws([&]() { o.getField((size_t)-1); })); exchange(o, p, q, N, [&](T &s, int k) { return s.getField((size_t)k); }); vf_reach("buffer");
}
HARNESS(h_buf_mesh) {
  int Np = vf_choice("Np", 1, 3), N = vf_choice("N", 0, 3); typedef MeshedScreen<Beam> T; V3 cp[5], X[3]; double t0[3] = {0, 1, 2}; for (int i = 0; i < Np + 2; i++) cp[i] = V3(i, i * i, 1); fio_reset(); meshfile("a", Np + 2, cp, Np, TRI, X, N, 0.5, t0, 1); meshfile("b", Np + 2, cp, Np, TRI, X, N, 0.5, t0, -1); meshfile("c", Np + 2, cp, Np, TRI, X, N, 0.5, t0, 2);
  T o("a"), p("b"), q("c"); exchange(o, p, q, Np * N, [&](T &s, int k) { return s.get_trace(k / N).get_field((size_t)(k % N)); }); vf_reach("buffer");
}
// announced sizes of huge grids: the dimensions of a small observer are replaced by arbitrary ones
HARNESS(h_huge) {
  int k = vf_choice("kind", 0, 2), n[3] = {vf_int("Nx", 1, 1 << 20), vf_int("Ny", 1, 1 << 20), vf_int("N", 1, 1 << 20)}, was[3] = {3, 5, 7}; long want = 6L * n[0] * n[1] * (k == 1 ? 1 : n[2]); double x = 0; if (k == 2) want = 6L * n[0] * n[1];
  if (k == 0) { typedef ScreenObserver<Beam> T; T o("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), 3, 5, 0.1, 0.1, 0.1, 0.1, 7); o.setSource(0); char sv[sizeof(T)]; memcpy(sv, (void *)&o, sizeof(T)); if (vf_patch(&o, sizeof(T), was, n, 3) == 3) { CHECK("announced", o.getBufferSize() == (size_t)want); if (!(want == 630)) CHECK("rejected", throws([&]() { o.fromBuffer(&x, 630); })); } memcpy((void *)&o, sv, sizeof(T)); }
  else if (k == 1) { typedef SnapshotObserver<Beam> T; T o("f", VectorZero, Vector(1, 0, 0), Vector(0, 1, 0), 3, 5, 0.1); o.setSource(0); char sv[sizeof(T)]; memcpy(sv, (void *)&o, sizeof(T)); if (vf_patch(&o, sizeof(T), was, n, 2) == 2) { CHECK("announced", o.getBufferSize() == (size_t)want); if (!(want == 90)) CHECK("rejected", throws([&]() { o.fromBuffer(&x, 90); })); } memcpy((void *)&o, sv, sizeof(T)); }
  else { int w[2] = {3, 7}; typedef MeshedScreen<Beam> T; V3 cp[5], X[3]; double t0[3] = {0, 1, 2}; fio_reset(); meshfile("a", 5, cp, 3, TRI, X, 7, 0.5, t0, -1); T o("a"); o.init(); o.setSource(0); char sv[sizeof(T)]; memcpy(sv, (void *)&o, sizeof(T)); if (vf_patch(&o, sizeof(T), w, n, 2) == 2) { CHECK("announced", o.getBufferSize() == (size_t)want); if (!(want == 126)) CHECK("rejected", throws([&]() { o.fromBuffer(&x, 126); })); } memcpy((void *)&o, sv, sizeof(T)); }
  vf_reach("huge");
}
// ---------------------------------------------------------------- C27
static void attr(FioSet *s, const char *n, double v) { FioAttr *a = fio_attr(s, n); CHECK(n, a && a->written && !a->isint); if (a && !a->isint) EQ(n, a->dv, v); }
static void attri(FioSet *s, const char *n, int v) { FioAttr *a = fio_attr(s, n); CHECK(n, a && a->written && a->isint); if (a && a->isint) EQI(n, a->iv, v); }
static bool shaped(FioSet *s, int rank, long a, long b, long c, long d) { long w[4] = {a, b, c, d}; if (!s || s->isint || s->rank != rank || s->written != 1) return false; for (int i = 0; i < rank; i++) if (s->dim[i] != w[i]) return false; return true; }
static void eqv(const char *id, const double *d, V3 v, double s = 0) { EQV3(id, V3(d[0], d[1], d[2]), v, s); }
static bool closed(const char *f) { int k = fio_file(f); return k >= 0 && !fio_files[k].open; }
HARNESS(h_file_screen) {
  int Nx = vf_choice("Nx", 1, 3), Ny = vf_choice("Ny", 1, 2), N = vf_choice("N", 1, 2), gen = vf_choice("generate", 0, 1); V3 O = real3("O"), DX = real3("dX"), DY = real3("dY"), c = cross3(DX, DY); ASSUME(dot3(c, c) > 0.0); double t0 = real("t0"), dt = realp("dt"), dtx = real("dtx"), dty = real("dty"); fio_reset();
  ScreenObserver<Lattice> s("out.h5", O.v(), DX.v(), DY.v(), Nx, Ny, t0, dt, dtx, dty, N); for (int k = 0; k < Nx * Ny * N; k++) s.setField(k / (Ny * N), k / N % Ny, k % N, cfield(1, k)); if (gen) s.generateOutput(); else s.WriteTimeDomainFieldHDF5(); CHECK("closed", closed("out.h5"));
  FioSet *p = fio_set("out.h5", "ObservationPosition"), *g = fio_set("out.h5", "Screen"), *f = fio_set("out.h5", "ElMagField"); bool ok = shaped(p, 3, Nx, Ny, 3, 0) && shaped(g, 2, 4, 3, 0, 0) && shaped(f, 4, Nx, Ny, N, 6); CHECK("data sets", ok); if (!ok) return;
  for (int k = 0; k < Nx * Ny; k++) eqv("position", p->d + 3 * k, add(O, add(mul(DX, k / Ny - half(Nx)), mul(DY, k % Ny - half(Ny))))); attri(p, "Nx", Nx); attri(p, "Ny", Ny);
  eqv("origin", g->d, O); eqv("dX", g->d + 6, DX); eqv("dY", g->d + 9, DY); V3 n(g->d[3], g->d[4], g->d[5]); EQS("unit normal", dot3(n, n), 1.0, 1.0); CHECK("side", dot3(n, c) < 0.0); EQV3("normal", cross3(n, c), V3(), 10.0); attri(g, "Nx", Nx); attri(g, "Ny", Ny); attri(g, "NOTS", N); attr(g, "t0", t0); attr(g, "dt", dt); attr(g, "dtx", dtx); attr(g, "dty", dty);
  for (int k = 0; k < Nx * Ny * N; k++) for (int i = 0; i < 6; i++) EQ("field", f->d[6 * k + i], cval(1, k, i)); attr(f, "t0", t0); attr(f, "dt", dt); attri(f, "NOTS", N); vf_reach("file");
}
HARNESS(h_file_snap) {
  int Nx = vf_choice("Nx", 1, 3), Ny = vf_choice("Ny", 1, 3), parts = vf_choice("store", 0, 1); V3 O = real3("O"), DX = real3("dX"), DY = real3("dY"); double t = real("t"); fio_reset(); Beam *src; make(src); { SnapshotObserver<Beam> s("out.h5", O.v(), DX.v(), DY.v(), Nx, Ny, t); s.setSource(src); for (int k = 0; k < Nx * Ny; k++) s.setField(k / Ny, k % Ny, cfield(1, k)); EQI("particles", s.getNumParticles(), nsrc); if (parts) EQI("stored", s.storeParticlePositions(), nsrc); s.generateOutput(); CHECK("closed", closed("out.h5"));
  FioSet *p = fio_set("out.h5", "ObservationPosition"), *f = fio_set("out.h5", "ElMagField"), *c = fio_set("out.h5", "ParticleCoordinates"); bool ok = shaped(p, 3, Nx, Ny, 3, 0) && shaped(f, 3, Nx, Ny, 6, 0); CHECK("data sets", ok); if (!ok) return;
  for (int k = 0; k < Nx * Ny; k++) { eqv("position", p->d + 3 * k, add(O, add(mul(DX, k / Ny - 0.5 * (Nx - 1)), mul(DY, k % Ny - 0.5 * (Ny - 1))))); for (int i = 0; i < 6; i++) EQ("field", f->d[6 * k + i], cval(1, k, i)); } attri(p, "Nx", Nx); attri(p, "Ny", Ny); attr(f, "t0", t);
  bool w = parts && nsrc > 0; CHECK("coordinates", w ? shaped(c, 2, nsrc, 6, 0, 0) : c == 0); if (w && c) { attri(c, "N_particles", nsrc); for (int i = 0; i < nsrc; i++) { eqv("X", c->d + 6 * i, fval(i, 'X', t, V3())); eqv("P", c->d + 6 * i + 3, fval(i, 'P', t, V3())); } } } delete src; vf_reach("file");
}
HARNESS(h_file_point) {
  int N = vf_choice("N", 0, 4), gen = vf_choice("generate", 0, 1); double t0 = real("t0"), dt = realp("dt"); fio_reset(); PointObserver<Bunch> s("out.sdds", real3("O").v(), t0, dt, N); for (int k = 0; k < N; k++) s.setField(k, cfield(1, k)); if (gen) s.generateOutput(); else s.WriteTimeDomainFieldSDDS();
  FioSdds *t = fio_table("out.sdds"); CHECK("complete", t && t->written && t->terminated && t->rows == N); if (!t) return; FioPar *a = fio_par(t, "NumberTimeSteps"), *b = fio_par(t, "t0"), *c = fio_par(t, "dt"); CHECK("parameters", a && b && c && a->set && b->set && c->set); if (!a || !b || !c) return; EQ("N", a->v, N); EQ("t0", b->v, t0); EQ("dt", c->v, dt);
  const char *cn[7] = {"Ex", "Ey", "Ez", "Bx", "By", "Bz", "t"}; for (int i = 0; i < 7; i++) { FioCol *q = fio_col(t, cn[i]); CHECK("column", q != 0); if (q) for (int k = 0; k < N; k++) { CHECK("set", q->set[k] == 1); EQ("value", q->v[k], i == 6 ? t0 + k * dt : cval(1, k, i)); } } vf_reach("file");
}
HARNESS(h_file_mesh) {
  int Np = vf_choice("Np", 1, 3), N = vf_choice("N", -1, 2), fld = vf_choice("fields", 0, 1), how = vf_choice("how", 0, 2); V3 cp[5], X[3]; char b[8]; for (int i = 0; i < Np + 2; i++) { strcpy(b, "C0"); b[1] += i; cp[i] = real3(b); } for (int i = 0; i < Np; i++) { strcpy(b, "X0"); b[1] += i; X[i] = real3(b); } double dt = realp("dt"), t0[3] = {real("t0"), real("t1"), real("t2")};
  fio_reset(); meshfile("m.h5", Np + 2, cp, Np, TRI, X, N, dt, t0, fld ? 1 : -1); const char *out = how == 0 ? "m.h5" : "o.h5"; { MeshedScreen<Beam> s("m.h5"); if (how == 0) s.generateOutput(); else s.writeFile("o.h5"); } CHECK("closed", closed(out)); int M = N < 0 ? 0 : N;
  FioSet *c = fio_set(out, "MeshCornerPoints"), *p = fio_set(out, "ObservationPosition"), *g = fio_set(out, "MeshTriangles"), *t = fio_set(out, "ObservationTime"), *f = fio_set(out, "ElMagField"); bool ok = shaped(c, 2, Np + 2, 3, 0, 0) && shaped(p, 2, Np, 3, 0, 0) && g && g->isint && g->rank == 2 && g->dim[0] == Np && g->dim[1] == 3 && shaped(t, 1, Np, 0, 0, 0) && shaped(f, 3, Np, M, 6, 0); CHECK("data sets", ok); if (!ok) return;
  for (int i = 0; i < Np + 2; i++) eqv("corner", c->d + 3 * i, cp[i]); attri(c, "Ncp", Np + 2); for (int i = 0; i < Np; i++) { eqv("position", p->d + 3 * i, X[i]); if (N >= 0) EQ("start", t->d[i], t0[i]); } attri(p, "Np", Np); for (int i = 0; i < 3 * Np; i++) EQI("triangle", g->i[i], TRI[i]); attri(t, "Nt", M); if (N >= 0) attr(t, "dt", dt); for (int k = 0; k < Np * M; k++) for (int i = 0; i < 6; i++) EQ("field", f->d[6 * k + i], fld ? cval(1, k, i) : 0.0);
  if (how == 2) { MeshedScreen<Lattice> r("o.h5"); EQI("Np", r.get_Np(), Np); EQI("Nt", r.get_Nt(), M); for (int i = 0; i < Np; i++) { EQV3("point", V3(r.get_point(i)), X[i]); if (N >= 0) EQ("t0", r.get_t0(i), t0[i]); FieldTrace tr = r.get_trace(i); EQI("n", tr.get_N(), M); if (N >= 0) EQ("tdt", tr.get_dt(), dt); for (int k = 0; k < M; k++) { if (fld) eqc("cell", tr.get_field((size_t)k), 1, i * M + k); else eqf("empty", tr.get_field((size_t)k), V3(), V3()); } } } vf_reach("file");
}
HARNESS(h_mesh_bad) {   // missing parts of mesh files
  int miss = vf_choice("missing", -1, 6); V3 cp[5], X[3]; double t0[3] = {0, 1, 2}; for (int i = 0; i < 5; i++) cp[i] = V3(i, i * i, 1); fio_reset(); meshfile("m.h5", 5, cp, 3, TRI, X, 2, 0.5, t0, 1); const char *sets[3] = {"MeshCornerPoints", "ObservationPosition", "MeshTriangles"};
  if (miss >= 0 && miss < 3) fio_set("m.h5", sets[miss])->name[0] = '?'; if (miss == 3) fio_set("m.h5", sets[0])->na = 0; if (miss == 4) fio_set("m.h5", sets[1])->na = 0; if (miss == 5) fio_set("m.h5", "ObservationTime")->na = 1; bool th = throws([&]() { MeshedScreen<Beam> s(miss == 6 ? "nofile.h5" : "m.h5"); }); CHECK("rejected", th == (miss >= 0)); vf_reach(th ? "rejected" : "accepted");
}
// ---------------------------------------------------------------- C26
// The corners are written in the cell's own frame (a rational rotation), so every triangle is covered: kind 0 with the first, kind 1 with the second local axis in a coordinate plane.
static void frame0(int kind, V3 &x, V3 &e, V3 &n) {
  double t = real("t"), w = real("w"), c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t), q = (1 - w * w) / (1 + w * w), r = 2 * w / (1 + w * w); ASSUME(w * w < 1.0);
  if (kind == 0) { x = V3(c, 0, -s); n = V3(s * q, r, c * q); e = cross3(n, x); } else { e = V3(0, c, s); n = V3(r, -s * q, c * q); x = cross3(e, n); }
}
static void okframe(const char *id, MeshedScreen<Beam> &s, int i, V3 n0, double A) {
  V3 n(s.get_normal(i)), x(s.get_xi(i)), e(s.get_eta(i)); char c[40]; nm(c, id, ".n.n"); EQS(c, dot3(n, n), 1.0, 1.0); nm(c, id, ".x.x"); EQS(c, dot3(x, x), 1.0, 1.0); nm(c, id, ".e.e"); EQS(c, dot3(e, e), 1.0, 1.0); nm(c, id, ".n.x"); EQS(c, dot3(n, x), 0.0, 1.0); nm(c, id, ".n.e"); EQS(c, dot3(n, e), 0.0, 1.0); nm(c, id, ".x.e"); EQS(c, dot3(x, e), 0.0, 1.0); nm(c, id, ".right"); EQV3(c, cross3(x, e), n, 1.0); nm(c, id, ".normal"); EQV3(c, n, n0, 1.0); nm(c, id, ".area"); EQS(c, s.get_area(i), A, 1.0);
}
HARNESS(h_geometry) {
  int kind = vf_choice("kind", 0, 1), Np = vf_choice("Np", 1, 2); V3 x, e, n, cp[5], X[3]; frame0(kind, x, e, n); double t0[3] = {0, 1, 2}, a = real("a"), b = real("b"), c = real("c"), d = real("d"), D = c * b - d * a; ASSUME(D > 0.0); cp[0] = real3("C0"); cp[1] = add(cp[0], add(mul(x, a), mul(e, b))); cp[2] = add(cp[0], add(mul(x, c), mul(e, d)));
  V3 m, av = n; double A = 0;
  if (Np == 2) {   // a second triangle next to it, with one of several fixed orientations: 0,1,2 are used as 2,1,3
    static const double M[6][3] = {{0, 0, 1}, {0.6, 0, -0.8}, {0, 1, 0}, {0, -0.8, 0.6}, {0.48, 0.8, 0.36}, {-1, 0, 0}}, U[6][3] = {{1, 0, 0}, {0, 1, 0}, {1, 0, 0}, {1, 0, 0}, {0.6, 0, -0.8}, {0, 1, 0}}; int k = vf_choice("second", 0, 5); m = V3(M[k][0], M[k][1], M[k][2]); V3 u(U[k][0], U[k][1], U[k][2]), v = cross3(m, u);
    cp[3] = add(cp[0], mul(u, 2.0)); cp[4] = add(cp[0], mul(v, 1.5)); A = 1.5; av = add(n, m); }   // triangle (0,4,3) below
  double L2 = dot3(av, av); ASSUME(dot3(n, av) > 0.0); ASSUME(dot3(n, av) * dot3(n, av) > 0.5175 * L2); double hy = av.y / sqrt(L2); if (kind == 0) { ASSUME(hy < 0.7); ASSUME(hy > -0.7); } else ASSUME(fabs(hy) >= 0.7);
  int tri[6] = {0, 1, 2, 0, 4, 3}; fio_reset(); meshfile("m.h5", 2 * Np + 1, cp, Np, tri, X, 1, 0.5, t0, -1); MeshedScreen<Beam> s("m.h5"); s.init(); okframe("cell", s, 0, n, 0.5 * D); if (Np == 2) okframe("second", s, 1, m, A); vf_reach("geometry");
}
HARNESS(h_neighbours) {   // any triangulation: corner numbers of up to 4 cells
  int Np = vf_choice("Np", 1, 3 + DEEP), tri[12], at = vf_choice("index", 0, Np - 1), buf[6]; V3 cp[5], X[4]; double t0[4] = {0, 1, 2, 3}; for (int i = 0; i < 5; i++) cp[i] = V3(i, i * i, 1); char b[8]; for (int i = 0; i < 3 * Np; i++) { strcpy(b, "t00"); b[1] += i / 3; b[2] += i % 3; static const int T[4][3] = {{0, 1, 2}, {2, 1, 3}, {3, 4, 2}, {4, 0, 1}}; tri[i] = (Np < 3 || i / 3 == at || (DEEP && i / 3 == 1)) ? vf_int(b, 0, 4) : T[i / 3][i % 3]; }
  fio_reset(); meshfile("m.h5", 5, cp, Np, tri, X, 1, 0.5, t0, -1); MeshedScreen<Beam> s("m.h5"); for (int i = 0; i < 6; i++) buf[i] = -7; int n = s.get_Neighbourhood(at, buf), k = 0; for (int i = 0; i < Np; i++) { bool share = false; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) share = share | (tri[3 * at + u] == tri[3 * i + v]); if (share) { EQI("cell", buf[k], i); k++; } } EQI("count", n, k); EQI("end", buf[k], -7); vf_reach("neighbours");
}
HARNESS(h_energy) {   // incident energy
  int Np = 2, N = vf_choice("N", 0, 2); V3 cp[5] = {V3(0, 0, 0), V3(0, 1, 0), V3(2, 0, 0), V3(0, 0, 3), V3()}, X[2]; double t0[2] = {0, 1}, dt = realp("dt"), want = 0, E = 0, MU0 = 1.2566370614e-6; int tri[6] = {0, 1, 2, 0, 3, 1}; V3 n[2] = {V3(0, 0, -1), V3(-1, 0, 0)}; double A[2] = {1.0, 1.5};
  { V3 q = cross3(sub(cp[2], cp[0]), sub(cp[1], cp[0])); n[0] = mul(q, 1 / 2.0); A[0] = 1.0; q = cross3(sub(cp[1], cp[0]), sub(cp[3], cp[0])); n[1] = mul(q, 1 / 3.0); A[1] = 1.5; }
  fio_reset(); meshfile("m.h5", 4, cp, Np, tri, X, N, dt, t0, 1); MeshedScreen<Lattice> s("m.h5"); s.init(); for (int i = 0; i < Np; i++) { V3 S; for (int k = 0; k < N; k++) S = add(S, V3(cfield(1, i * N + k).Poynting())); S = mul(S, dt); EQV3("flow", V3(s.Poynting(i)), S); want -= A[i] * dot3(S, n[i]); } EQS("energy", s.totalEnergy(), want, 1.0); vf_reach("energy");
}
