// C30: the observation loops in teams of several threads (OpenMP model in engine/omprt.py): sources as arbitrary functions
#include "obskit.h"
extern "C" void vf_threads(int n, int order);
static int team(int max) { int T = vf_choice("threads", 1, max); vf_threads(T, T == 1 ? 0 : vf_choice("order", 0, 3)); return T; }
template <class Src> static Src *two();
template <> Lattice *two<Lattice>() { Lattice *l = new Lattice(); l->addElement(new Fn(0)); l->addElement(new Fn(1)); return l; }
template <> Bunch *two<Bunch>() { pcnt = 0; Bunch *b = new Bunch(); b->Add(new ChargedParticle()); b->Add(new ChargedParticle()); return b; }
template <> Beam *two<Beam>() { pcnt = 0; Beam *r = new Beam(); for (int i = 0; i < 2; i++) { Bunch *b = new Bunch(); b->Add(new ChargedParticle()); r->Add(b); } return r; }
template <class Src> static void screen() {
  Src *src = two<Src>(); nsrc = 2; int shape = vf_choice("grid", 0, DEEP ? 7 : 4), nx[8] = {1, 2, 1, 3, 2, 3, 4, 1}, ny[8] = {1, 3, 4, 1, 2, 3, 2, 6}, Nx = nx[shape], Ny = ny[shape], N = vf_choice("N", 1, 2); V3 O = real3("O"), DX = real3("dX"), DY = real3("dY"); double t0 = real("t0"), dt = realp("dt"), dtx = real("dtx"), dty = real("dty");
  ScreenObserver<Src> s("f", O.v(), DX.v(), DY.v(), Nx, Ny, t0, dt, dtx, dty, N); s.setSource(src); team(DEEP ? 6 : 4); s.integrate(); vf_threads(1, 0);
  for (int ix = 0; ix < Nx; ix++) for (int iy = 0; iy < Ny; iy++) for (int it = 0; it < N; it++) { double a = ix - Nx / 2, b = iy - Ny / 2, t = t0 + dtx * a + dty * b + it * dt; V3 X = add(O, add(mul(DX, a), mul(DY, b))); eqf("cell", s.getField(ix, iy, it), sumf('E', t, X), sumf('B', t, X)); }
  vf_reach("screen");
}
HARNESS(h_screen) { int k = vf_choice("source", 0, 2); if (k == 0) screen<Lattice>(); else if (k == 1) screen<Bunch>(); else screen<Beam>(); }
template <class Src> static void snap() {
  Src *src = two<Src>(); nsrc = 2; int Nx = vf_choice("Nx", 1, 3), Ny = vf_choice("Ny", 1, 3); V3 O = real3("O"), DX = real3("dX"), DY = real3("dY"); double t = real("t");
  SnapshotObserver<Src> s("f", O.v(), DX.v(), DY.v(), Nx, Ny, t); s.setSource(src); team(DEEP ? 9 : 4); s.integrate(); vf_threads(1, 0);
  for (int ix = 0; ix < Nx; ix++) for (int iy = 0; iy < Ny; iy++) { double a = ix - 0.5 * (Nx - 1), b = iy - 0.5 * (Ny - 1); V3 X = add(O, add(mul(DX, a), mul(DY, b))); eqf("cell", s.getField(ix, iy), sumf('E', t, X), sumf('B', t, X)); }
  vf_reach("snap");
}
HARNESS(h_snap) { int k = vf_choice("source", 0, 2); if (k == 0) snap<Lattice>(); else if (k == 1) snap<Bunch>(); else snap<Beam>(); }
template <class Src> static void point() {
  Src *src = two<Src>(); nsrc = 2; int N = vf_choice("N", 0, 4); V3 O = real3("O"); double t0 = real("t0"), dt = realp("dt"); PointObserver<Src> s("f", O.v(), t0, dt, N); s.setSource(src); team(DEEP ? 6 : 4); s.integrate(); vf_threads(1, 0);
  for (int it = 0; it < N; it++) { double t = t0 + it * dt; eqf("cell", s.getField((size_t)it), sumf('E', t, O), sumf('B', t, O)); }
  vf_reach("point");
}
HARNESS(h_point) { int k = vf_choice("source", 0, 2); if (k == 0) point<Lattice>(); else if (k == 1) point<Bunch>(); else point<Beam>(); }
template <class Src> static void mesh() {
  Src *src = two<Src>(); nsrc = 2; int Np = vf_choice("Np", 1, DEEP ? 5 : 4), N = vf_choice("N", 1, 2), tri[15] = {0, 1, 2, 2, 1, 3, 3, 4, 2, 0, 4, 3, 1, 4, 0}; V3 cp[7], X[5]; char b[8]; for (int i = 0; i < Np + 2; i++) cp[i] = V3(i, i * i, 1); for (int i = 0; i < Np; i++) { strcpy(b, "X0"); b[1] += i; X[i] = real3(b); } double dt = realp("dt"), t0[5] = {real("t0"), real("t1"), real("t2"), real("t3"), real("t4")};
  fio_reset(); meshfile("m.h5", Np + 2, cp, Np, tri, X, N, dt, t0, -1); MeshedScreen<Src> s("m.h5"); s.init(); s.setSource(src); team(DEEP ? 6 : 4); s.integrate(); vf_threads(1, 0);
  for (int ip = 0; ip < Np; ip++) { FieldTrace tr = s.get_trace(ip); for (int it = 0; it < N; it++) { double t = t0[ip] + it * dt; eqf("cell", tr.get_field((size_t)it), sumf('E', t, X[ip]), sumf('B', t, X[ip])); } }
  vf_reach("mesh");
}
HARNESS(h_mesh) { int k = vf_choice("source", 0, 2); if (k == 0) mesh<Lattice>(); else if (k == 1) mesh<Bunch>(); else mesh<Beam>(); }
