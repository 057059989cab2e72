#include "common.h"
HARNESS(h_algebra) {
  V3 a = real3("a"), b = real3("b"), c = real3("c"); double f = real("f"), g = real("g");
  Vector A = a.v(), B = b.v(), C = c.v();
  EQV3("add", A + B, add(a, b)); EQV3("sub", A - B, sub(a, b)); EQV3("neg", -A, mul(a, -1.0)); EQV3("scale", A * f, mul(a, f));
  EQV3("square", A.square(), V3(a.x * a.x, a.y * a.y, a.z * a.z));
  EQ("dot", dot(A, B), dot3(a, b)); EQV3("cross", cross(A, B), cross3(a, b)); EQ("abs2nd", A.abs2nd(), dot3(a, a));
  EQV3("operand-a", A, a); EQV3("operand-b", B, b);
  Vector t = A; t += B; EQV3("iadd", t, add(a, b)); t -= B; EQV3("isub", t, a); t *= f; EQV3("imul", t, mul(a, f));
  t = A; Vector &r = (t += B); CHECK("iadd-ref", &r == &t); CHECK("isub-ref", &(t -= B) == &t); CHECK("imul-ref", &(t *= f) == &t);
  // laws
  EQV3("distributive", (A + B) * f, A * f + B * f); EQV3("associative", (A + B) + C, A + (B + C)); EQV3("compat", (A * f) * g, A * (f * g));
  EQV3("jacobi", cross(A, cross(B, C)) + cross(B, cross(C, A)) + cross(C, cross(A, B)), V3(), 1000.0);
  EQV3("anticommutative", cross(A, B), -cross(B, A));
  EQV3("bac-cab", cross(A, cross(B, C)), B * dot(A, C) - C * dot(A, B), 100.0);
  EQ("lagrange", cross(A, B).abs2nd() + dot(A, B) * dot(A, B), A.abs2nd() * B.abs2nd());
  CHECK("null", VectorZero.x == 0.0 && VectorZero.y == 0.0 && VectorZero.z == 0.0); Vector z; CHECK("default", z.x == 0.0 && z.y == 0.0 && z.z == 0.0);
  OBS3("cross", cross(A, B)); vf_reach("algebra");
}
HARNESS(h_isnull) {
  V3 a = real3("a"); Vector A = a.v();
  if (A.isNull()) { EQV3("zero", a, V3()); vf_reach("null"); } else { CHECK("nonzero", dot3(a, a) > 0.0); vf_reach("notnull"); }
}
HARNESS(h_div) {
  V3 a = real3("a"); double f = real("f"); ASSUME(f != 0.0); Vector A = a.v();
  EQV3("div", (A / f) * f, a); EQV3("div-val", A / f, V3(a.x / f, a.y / f, a.z / f)); EQV3("operand", A, a); Vector t = A; t /= f; EQV3("idiv", t, V3(a.x / f, a.y / f, a.z / f)); CHECK("idiv-ref", &(t /= f) == &t);
  vf_reach("div");
}
HARNESS(h_norm) {
  V3 a = real3("a"), b = real3("b"); Vector A = a.v(), B = b.v(); ASSUME(dot3(a, a) > 0.0);
  double n = A.norm(); EQ("norm2", n * n, dot3(a, a)); CHECK("norm-nonneg", n >= 0.0); EQV3("operand", A, a);
  Vector u = A; u.normalize(); EQ("unit", u.abs2nd(), 1.0); EQV3("parallel", u * n, a); CHECK("same-sense", dot3(V3(u), a) > 0.0);
  EQV3("unit-val", u, V3(a.x / len3(a), a.y / len3(a), a.z / len3(a)));
  vf_observe("n", n); vf_reach("norm");
}
HARNESS(h_triangle) {
  // Cauchy-Schwarz, hence the triangle inequality
  V3 a = real3("a"), b = real3("b"); Vector A = a.v(), B = b.v(); double d = dot(A, B);
  CHECK("cauchy-schwarz", d * d <= A.abs2nd() * B.abs2nd()); vf_reach("cs");
}
HARNESS(h_root) {
  double x = realp("x"), y = realp("y"), z = realp("z"); Vector A(x, y, z); Vector r = A.root();
  EQ("rx", r.x * r.x, x); EQ("ry", r.y * r.y, y); EQ("rz", r.z * r.z, z); CHECK("root-nonneg", r.x >= 0.0 && r.y >= 0.0 && r.z >= 0.0); EQV3("operand", A, V3(x, y, z)); 
  EQV3("square-root", A.square().root(), A); vf_reach("root");
}
HARNESS(h_transform) {
  Frame f = frame("q"); V3 a = real3("a"), b = real3("b"); Vector A = a.v(), B = b.v();
  Vector ea = f.a.v(), eb = f.b.v(), ec = f.c.v();
  A.transform(ea, eb, ec); B.transform(ea, eb, ec);
  EQV3("components", A, V3(dot3(a, f.a), dot3(a, f.b), dot3(a, f.c)));
  EQ("dot-preserved", dot(A, B), dot3(a, b)); EQ("norm-preserved", A.abs2nd(), dot3(a, a));
  EQV3("cross-preserved", cross(A, B), V3(dot3(cross3(a, b), f.a), dot3(cross3(a, b), f.b), dot3(cross3(a, b), f.c)));
  EQV3("back", add(add(mul(f.a, A.x), mul(f.b, A.y)), mul(f.c, A.z)), a); EQV3("ex-kept", ea, f.a);
  OBS3("A", A); vf_reach("transform");
}
