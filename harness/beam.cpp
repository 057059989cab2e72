#include "beamkit.h"
// ---------------------------------------------------------------- C03
HARNESS(h_track) {
  Comp c = compose(4, S(2, 3), vf_choice("points", 1, 2), true); FnField f(false), g(false); double dt = vf_real("dt", 0.5e-12, 2e-12); int nots = vf_choice("nots", 0, 1) ? 7 : 0;
  c.beam->setTimeStep(dt); c.beam->setTrackingMethod(TRACKING_VAY); c.beam->setNOTS(nots);
  EQ("timestep", c.beam->getTimeStep(), dt); EQI("nop", c.beam->getNOP(), c.tot); EQI("nob", c.beam->getNOB(), c.nb);
  c.beam->setupTracking(&f); EQI("setup-steps", c.beam->getNOTS(), 0); EQI("setup-fields", f.n, c.tot);
  for (int i = 0; i < c.tot; i++) { c.ref[i]->InitVay(dt, &g); same_current("init", c.p[i], c.ref[i]); same_traj("init", c.p[i], c.ref[i]); same_hidden("init", c.p[i], c.ref[i]); }
  for (int k = 0, j = 0; k < c.nb; k++) { Bunch *q = c.beam->getBunch(k); EQI("bunch-nop", q->getNOP(), c.n[k]); for (int i = 0; i < c.n[k]; i++, j++) CHECK("same-particle", q->getParticle(i) == c.p[j]); CHECK("range", q->getParticle(c.n[k]) == 0 && q->getParticle(-1) == 0); }
  CHECK("bunch-range", c.beam->getBunch(c.nb) == 0 && c.beam->getBunch(-1) == 0);
  vf_reach("track");
}
// stepping continues from an arbitrary state in the middle of tracking
HARNESS(h_resume) {
  Comp c = compose(4, 2, vf_choice("points", 1, S(2, 3)), true); FnField f(false), g(false); int nots = vf_int("nots", 0, 1000000);
  c.beam->setTrackingMethod(TRACKING_VAY); c.beam->setNOTS(nots); c.beam->doStep(&f); EQI("steps", c.beam->getNOTS(), nots + 1); EQI("fields", f.n, c.tot);
  for (int i = 0; i < c.tot; i++) { c.ref[i]->StepVay(&g); same_current("step", c.p[i], c.ref[i]); same_traj("step", c.p[i], c.ref[i]); same_hidden("step", c.p[i], c.ref[i]); }
  vf_reach("resume");
}
HARNESS(h_method) {
  int m = vf_choice("method", -1, 5); Beam b; Bunch *q = new Bunch(); q->Add(anyp(0, 1)); ChargedParticle *r = clone(q->getParticle(0)); b.Add(q); b.setTrackingMethod((TrackingMethod)m); b.setTimeStep(1e-12); FnField f(false); bool t1 = false, t2 = false;
  CHECK("method", (int)b.getTrackingMethod() == m);
  try { b.setupTracking(&f); } catch (IOexception &e) { t1 = true; }
  if (t1) { same_traj("untouched", q->getParticle(0), r); }
  try { b.doStep(&f); } catch (IOexception &e) { t2 = true; }
  CHECK("unknown-rejected", t1 == ((TrackingMethod)m != TRACKING_VAY) && t2 == t1); if (t2) { same_traj("untouched", q->getParticle(0), r); EQI("no-field", f.n, 0); } vf_reach(t1 ? "rejected" : "vay");
}
HARNESS(h_clear) {
  Comp c = compose(4, 2, 2, true); c.beam->setNOTS(5);
  c.beam->preAllocate(7); for (int i = 0; i < c.tot; i++) { same_traj("prealloc", c.p[i], c.ref[i]); EQI("npre", c.p[i]->getNpre(), 7); }
  c.beam->clearTrajectories(); EQI("steps", c.beam->getNOTS(), 0); EQI("nop", c.beam->getNOP(), c.tot); for (int i = 0; i < c.tot; i++) { EQI("cleared", c.p[i]->getNP(), 0); }
  c.beam->clear(); EQI("nob", c.beam->getNOB(), 0); EQI("nop0", c.beam->getNOP(), 0); CHECK("no-bunch", c.beam->getBunch(0) == 0); vf_reach("clear");
}
// fields of bunches and beams are the sums over the particles
// the fields of a beam (bunch) are the sum over all of its particles, whatever their distribution over the bunches
static ChargedParticle *radiator(int id) { double T[3] = {0, 2e-9, 4e-9}; V3 X[3], P[3], A[3]; pn("q", id); double q = vf_real(NB, -5, 5);
  for (int i = 0; i < 3; i++) { X[i] = V3(0.01 * id, 0, 0.1 * i + 0.02 * id); P[i] = V3(0, 0, 0.75); A[i] = V3(1e7 * (id + 1 + i), 2e7, 0); } return traj_particle(q, 1.0, 3, T, X, P, A); }
HARNESS(h_sum) {
  vf_round(80); int nb = vf_choice("bunches", 0, 3), n[4], tot = 0; char b[8]; ChargedParticle *ref[16]; Beam *B = new Beam(); Bunch *last = 0;
  for (int k = 0; k < nb; k++) { n[k] = vf_choice(idx(b, "size", k), 0, S(2, 3)); Bunch *q = last = new Bunch(); for (int i = 0; i < n[k]; i++) { ChargedParticle *p = radiator(tot); ref[tot++] = clone(p); q->Add(p); } B->Add(q); }
  Vector O(0.3, 0.1, 1.0); double times[3] = {1e-9, 3.9e-9, 6.5e-9};
  for (int j = 0; j < 3; j++) { ElMagField f = B->RetardedField(times[j], O); V3 e, h; for (int i = 0; i < tot; i++) { ElMagField r = ref[i]->RetardedField(times[j], O); e = add(e, V3(r.E())); h = add(h, V3(r.B())); }
    EQV3("E", V3(f.E()), e, 1e-7); EQV3("B", V3(f.B()), h, 1e-15); }
  FieldTrace t(3e-9, 0.5e-9, 8), u(3e-9, 0.5e-9, 8); B->integrateFieldTrace(O, &t); for (int i = 0; i < tot; i++) ref[i]->integrateFieldTrace(O, &u);
  for (std::size_t k = 0; k < 8; k++) { EQV3("trace.E", V3(t.get_field(k).E()), V3(u.get_field(k).E()), 1e-7); EQV3("trace.B", V3(t.get_field(k).B()), V3(u.get_field(k).B()), 1e-15); }
  vf_reach("sum");
}
// ---------------------------------------------------------------- C09
HARNESS(h_copy) {
  int np = vf_choice("points", 0, 3), pre = vf_choice("pre", 0, 2) * 2; ChargedParticle *p = anyp(0, np); if (pre) p->preAllocate(pre); FnField f, g; int tracked = np ? vf_choice("tracked", 0, 2) : 0;
  if (tracked == 1) p->InitVay(1e-12, &f); if (tracked == 2) p->StepVay(&f);
  ChargedParticle q(p); same_current("copy", p, &q); same_traj("copy", p, &q); same_hidden("copy", p, &q); EQ("charge", p->getCharge(), q.getCharge());
  double a[16], b[16]; CHECK("probe-end", p->bufferProbe(a) == a + 16 && q.bufferProbe(b) == b + 16); if (tracked) for (int i = 10; i < 16; i++) EQ("fields", a[i], b[i]);
  if (np && !tracked) { p->StepVay(&f); q.StepVay(&g); same_current("continued", p, &q); same_traj("continued", p, &q); same_hidden("continued", p, &q); }
  ChargedParticle *r = clone(p); V3 d = real3("shift"); q.Shift(d.v(), 2.0); same_traj("independent", p, r); same_hidden("independent", p, r);
  vf_reach("copy");
}
HARNESS(h_bunchcopy) {
  Bunch o; int n = vf_choice("n", 0, 3); for (int i = 0; i < n; i++) o.Add(anyp(i, 2)); Bunch c(&o); EQI("nop", c.getNOP(), n);
  for (int i = 0; i < n; i++) { CHECK("new", c.getParticle(i) != o.getParticle(i)); same_current("copy", c.getParticle(i), o.getParticle(i)); same_traj("copy", c.getParticle(i), o.getParticle(i)); same_hidden("copy", c.getParticle(i), o.getParticle(i)); }
  int k = vf_choice("replace", -1, 3); ChargedParticle *x = new ChargedParticle(2.0, 3.0); ChargedParticle *was[3]; for (int i = 0; i < n; i++) was[i] = c.getParticle(i); c.replaceParticle(k, x); EQI("nop2", c.getNOP(), n); for (int i = 0; i < n; i++) CHECK("replaced", c.getParticle(i) == (i == k ? x : was[i])); vf_reach("bunchcopy");
}
// current state: 12 numbers
HARNESS(h_serialize) {
  int np = vf_choice("points", 0, 3); ChargedParticle *p = anyp(0, np); double buf[14]; for (int i = 0; i < 14; i++) buf[i] = -77.0; p->serialize(buf + 1); EQ("before", buf[0], -77.0); EQ("after", buf[13], -77.0);
  ChargedParticle q(buf + 1); EQ("charge", q.getCharge(), p->getCharge()); EQI("points", q.getNP(), 1);
  if (np) { same_current("restored", &q, p); EQ("t", q.TrajTime(0), p->TrajTime(np - 1)); EQV3("X", V3(q.TrajPoint(0)), V3(p->TrajPoint(np - 1))); EQV3("P", V3(q.TrajMomentum(0)), V3(p->TrajMomentum(np - 1))); EQV3("A", V3(q.TrajAccel(0)), V3(p->TrajAccel(np - 1)));
    // tracked from there, both particles behave alike
    FnField f, g; p->InitVay(1e-12, &f); q.InitVay(1e-12, &g); same_current("tracked", &q, p); same_hidden("tracked", &q, p); }
  else { EQV3("zero-X", V3(q.TrajPoint(0)), V3()); EQV3("zero-P", V3(q.TrajMomentum(0)), V3()); EQV3("zero-A", V3(q.TrajAccel(0)), V3()); EQ("zero-t", q.TrajTime(0), 0.0); }
  vf_reach("serialize");
}
HARNESS(h_serializetraj) {
  int np = vf_choice("points", 0, 3), pre = vf_choice("pre", 0, 5); ChargedParticle *p = anyp(0, np); int n = p->TrajBufSize(); EQI("size", n, 9 + 10 * np); std::vector<double> b(n + 2, -77.0); p->serializeTraj(&b[1]); EQ("before", b[0], -77.0); EQ("after", b[n + 1], -77.0);
  ChargedParticle q(&b[1], np, pre); same_traj("restored", &q, p); same_hidden("restored", &q, p); EQ("charge", q.getCharge(), p->getCharge()); if (np) same_current("restored", &q, p);
  if (pre > 0) EQI("npre", q.getNpre(), pre);
  if (np) { FnField f, g; p->StepVay(&f); q.StepVay(&g); same_current("continued", &q, p); same_traj("continued", &q, p); same_hidden("continued", &q, p); }
  vf_reach("serializetraj");
}
// ---------------------------------------------------------------- C10
HARNESS(h_stepbuf) {
  Comp a = compose(4, S(2, 3), 2, false); Beam *b = new Beam(); ChargedParticle *q[20]; double *hid[20]; int j = 0;
  for (int k = 0; k < a.nb; k++) { Bunch *u = new Bunch(); for (int i = 0; i < a.n[k]; i++, j++) { q[j] = anyp(20 + j, 1); u->Add(q[j]); } b->Add(u); }
  // coordinates set independently of the stored points
  for (int i = 0; i < a.tot; i++) { char c[24]; pn("ct", i); double t = vf_real(NB, 0, 1e-9); pn("cx", i); strcpy(c, NB); V3 X = real3(c); pn("cp", i); strcpy(c, NB); V3 P = real3(c); pn("ca", i); strcpy(c, NB); a.p[i]->setCurrentPoint(t, X.v(), P.v(), real3(c).v()); }
  int nots = vf_int("nots", 0, 1000000); b->setNOTS(nots); int n = a.beam->getStepBufferSize(); EQI("size", n, 10 * a.tot); EQI("same-size", b->getStepBufferSize(), n);
  std::vector<double> buf(n + 2, -77.0); a.beam->bufferStep(&buf[1]); EQ("before", buf[0], -77.0); EQ("after", buf[n + 1], -77.0); std::vector<double> keep(buf);
  for (int i = 0; i < a.tot; i++) { double *w = &buf[1 + 10 * i]; EQ("t", w[0], a.p[i]->getTime()); EQV3("X", V3(w[1], w[2], w[3]), V3(a.p[i]->getPosition())); EQV3("P", V3(w[4], w[5], w[6]), V3(a.p[i]->getMomentum())); EQV3("A", V3(w[7], w[8], w[9]), V3(a.p[i]->getAccel())); same_traj("source", a.p[i], a.ref[i]); }
  ChargedParticle *old[20]; for (int i = 0; i < a.tot; i++) old[i] = clone(q[i]);
  b->setStepFromBuffer(&buf[1]); EQI("steps", b->getNOTS(), nots + 1); for (int i = 0; i < n + 2; i++) EQ("buffer-kept", buf[i], keep[i]);
  for (int i = 0; i < a.tot; i++) { same_current("set", q[i], a.p[i]); EQI("points", q[i]->getNP(), 2); EQ("tt", q[i]->TrajTime(1), a.p[i]->getTime()); EQV3("tX", V3(q[i]->TrajPoint(1)), V3(a.p[i]->getPosition())); EQV3("tP", V3(q[i]->TrajMomentum(1)), V3(a.p[i]->getMomentum())); EQV3("tA", V3(q[i]->TrajAccel(1)), V3(a.p[i]->getAccel()));
    EQ("old-t", q[i]->TrajTime(0), old[i]->TrajTime(0)); EQV3("old-X", V3(q[i]->TrajPoint(0)), V3(old[i]->TrajPoint(0))); same_hidden("kept", q[i], old[i]); EQ("charge", q[i]->getCharge(), old[i]->getCharge()); }
  vf_reach("stepbuf");
}
HARNESS(h_stepself) {
  Comp a = compose(4, 2, 1, false); int n = a.beam->getStepBufferSize(); std::vector<double> buf(n + 1), c(n + 1); a.beam->bufferStep(&buf[0]); a.beam->setStepFromBuffer(&buf[0]); for (int i = 0; i < a.tot; i++) same_current("identity", a.p[i], a.ref[i]); a.beam->bufferStep(&c[0]); for (int i = 0; i < n; i++) EQ("again", c[i], buf[i]); vf_reach("stepself");
}
// ---------------------------------------------------------------- C11
HARNESS(h_probe) {
  Comp a = compose(3, 3, 1, true); unsigned int req = vf_choice("request", 0, 10); FnField f; double E[20][16];
  a.beam->setTimeStep(1e-12); a.beam->setTrackingMethod(TRACKING_VAY);
  for (int i = 0; i < a.tot; i++) { a.p[i]->E_current = real3(pn("pE", i)).v(); a.p[i]->B_current = real3(pn("pB", i)).v(); a.p[i]->A_current = real3(pn("pA", i)).v(); a.p[i]->bufferProbe(E[i]);
    EQ("p.t", E[i][0], a.p[i]->getTime()); EQV3("p.X", V3(E[i][1], E[i][2], E[i][3]), V3(a.p[i]->getPosition())); EQV3("p.P", V3(E[i][4], E[i][5], E[i][6]), V3(a.p[i]->getMomentum())); EQV3("p.A", V3(E[i][7], E[i][8], E[i][9]), V3(a.p[i]->getAccel())); EQV3("p.E", V3(E[i][10], E[i][11], E[i][12]), V3(a.p[i]->E_current)); EQV3("p.B", V3(E[i][13], E[i][14], E[i][15]), V3(a.p[i]->B_current)); }
  EQI("size", a.beam->getProbeBufferSize(req), 16 * req); std::vector<double> buf(16 * req + 2, -77.0); a.beam->bufferProbe(&buf[1], req); EQ("before", buf[0], -77.0); EQ("after", buf[16 * req + 1], -77.0);
  // round robin over the bunches
  int order[20], n = 0; for (int r = 0; r < 3; r++) for (int k = 0, j = 0; k < a.nb; k++) { if (r < a.n[k]) order[n++] = j + r; j += a.n[k]; }
  int want = (int)req < a.tot ? (int)req : a.tot; for (int i = 0; i < (int)req; i++) for (int k = 0; k < 16; k++) EQ("record", buf[1 + 16 * i + k], i < want ? E[order[i]][k] : -77.0);
  vf_reach("probe");
}
HARNESS(h_probelog) {
  fio_reset(); Comp a = compose(3, 2, 1, true); int req = vf_choice("request", 0, 7); ASSUME(a.tot > 0); ProbeLogger<Beam> *l = new ProbeLogger<Beam>(a.beam, "probe.h5", 1, req); FnField f; int want = req < a.tot ? req : a.tot; double rec[3][20][16]; int order[20], n = 0;
  for (int r = 0; r < 3; r++) for (int k = 0, j = 0; k < a.nb; k++) { if (r < a.n[k]) order[n++] = j + r; j += a.n[k]; }
  for (int s = 0; s < 2; s++) { for (int i = 0; i < a.tot; i++) { a.p[i]->setCurrentPoint(vf_real(pn(s ? "v" : "w", i), 0, 1), real3(pn(s ? "y" : "z", i)).v(), VectorZero, VectorZero); a.p[i]->E_current = VectorZero; a.p[i]->B_current = VectorZero; a.p[i]->bufferProbe(rec[s][i]); } l->update(); }
  EQI("written", l->WriteData(), 0); FioSet *d = fio_set("probe.h5", "Probe"); CHECK("set", d != 0 && d->written == 1 && d->rank == 3);
  EQI("NOTS", d->dim[0], 2); EQI("NOP", d->dim[1], want); EQI("NOD", d->dim[2], 16); FioAttr *t = fio_attr(d, "NOTS"), *p = fio_attr(d, "NOP"), *o = fio_attr(d, "NOD"); CHECK("attrs", t && p && o && t->iv == 2 && p->iv == want && o->iv == 16);
  for (int s = 0; s < 2; s++) for (int i = 0; i < want; i++) for (int k = 0; k < 16; k++) EQ("record", d->d[(s * want + i) * 16 + k], rec[s][order[i]][k]);
  delete l; vf_reach("probelog");
}
// ---------------------------------------------------------------- C15
static V3 mirr(V3 x, V3 n, double nn) { return sub(x, mul(n, 2.0 * dot3(x, n) / nn)); }
HARNESS(h_shift) {
  int np = vf_choice("points", 0, 3); ChargedParticle *p = anyp(0, np), *r = clone(p); V3 d = real3("delta"); double fc = vf_real("factor", -2, 2);
  p->Shift(d.v(), fc); EQI("n", p->getNP(), np); EQ("charge", p->getCharge(), r->getCharge() * fc);
  for (int i = 0; i < np; i++) { EQV3("X", V3(p->TrajPoint(i)), add(V3(r->TrajPoint(i)), d)); EQ("t", p->TrajTime(i), r->TrajTime(i)); EQV3("P", V3(p->TrajMomentum(i)), V3(r->TrajMomentum(i))); EQV3("A", V3(p->TrajAccel(i)), V3(r->TrajAccel(i))); }
  if (np) { EQV3("cX", V3(p->getPosition()), add(V3(r->getPosition()), d)); EQV3("cP", V3(p->getMomentum()), V3(r->getMomentum())); EQV3("cA", V3(p->getAccel()), V3(r->getAccel())); EQ("ct", p->getTime(), r->getTime());
    p->Shift(mul(d, -1.0).v(), 1.0); for (int i = 0; i < np; i++) EQV3("undone", V3(p->TrajPoint(i)), V3(r->TrajPoint(i)), 1.0); }
  vf_reach("shift");
}
HARNESS(h_mirror) {
  int np = vf_choice("points", 0, 3); ChargedParticle *p = anyp(0, np), *r = clone(p); V3 o = real3("origin"), n = real3("normal"); double nn = dot3(n, n), fc = vf_real("factor", -2, 2); ASSUME(nn > 0.0);
  p->Mirror(o.v(), n.v(), fc); EQI("n", p->getNP(), np); EQ("charge", p->getCharge(), r->getCharge() * fc);
  for (int i = 0; i < np; i++) { EQV3("X", V3(p->TrajPoint(i)), add(o, mirr(sub(V3(r->TrajPoint(i)), o), n, nn)), 3.0); EQ("t", p->TrajTime(i), r->TrajTime(i)); EQV3("P", V3(p->TrajMomentum(i)), mirr(V3(r->TrajMomentum(i)), n, nn), 3.0); EQV3("A", V3(p->TrajAccel(i)), mirr(V3(r->TrajAccel(i)), n, nn), 1e9); }
  if (np) { EQV3("cX", V3(p->getPosition()), add(o, mirr(sub(V3(r->getPosition()), o), n, nn)), 3.0); EQV3("cP", V3(p->getMomentum()), mirr(V3(r->getMomentum()), n, nn), 3.0); EQV3("cA", V3(p->getAccel()), mirr(V3(r->getAccel()), n, nn), 1e9); EQ("ct", p->getTime(), r->getTime()); 
    EQ("speed", V3(p->getMomentum()).x * p->getMomentum().x + p->getMomentum().y * p->getMomentum().y + p->getMomentum().z * p->getMomentum().z, dot3(V3(r->getMomentum()), V3(r->getMomentum()))); }
  vf_reach("mirror");
}
HARNESS(h_mirror_twice) {
  ChargedParticle *p = anyp(0, 2), *r = clone(p); V3 o = real3("origin"), n = real3("normal"); ASSUME(dot3(n, n) > 0.0); p->Mirror(o.v(), n.v(), -1.0); p->Mirror(o.v(), n.v(), -1.0);
  EQ("charge", p->getCharge(), r->getCharge()); for (int i = 0; i < 2; i++) { EQV3("X", V3(p->TrajPoint(i)), V3(r->TrajPoint(i)), 3.0); EQV3("P", V3(p->TrajMomentum(i)), V3(r->TrajMomentum(i)), 3.0); EQV3("A", V3(p->TrajAccel(i)), V3(r->TrajAccel(i)), 1e9); } same_hidden("same", p, r); vf_reach("twice");
}
// tracking goes on from the displaced or mirrored state, with the scaled charge
HARNESS(h_shift_track) {
  PState st; st.q = vf_real("charge", -5, 5); st.m = vf_real("mass", 0.5, 3); ASSUME(st.m > 0.0); st.dt = vf_real("dt", 0.5e-12, 2e-12); ASSUME(st.dt > 0.0); st.qm = st.q / st.m * InvRestMass; st.qmt2 = st.qm * 0.5 * st.dt;
  int rest = vf_choice("rest", 0, 1), mir = vf_choice("mirror", 0, 1); if (!rest) st.p = real3("p"); st.g = rest ? 1.0 : std::sqrt(1.0 + dot3(st.p, st.p)); st.t = vf_real("t", -1e-10, 1e-10); st.X = real3("X"); st.P = real3("P"); st.A = real3("A");
  double b[19]; fill_head(b, st); fill_point(b + 9, st.t, st.X, st.P, st.A); ChargedParticle *p = new ChargedParticle(b, 1, 0);
  V3 d = real3("delta"), n = real3("normal"); double fc = vf_real("factor", -2, 2), nn = dot3(n, n); ASSUME(nn > 0.0);
  if (mir) p->Mirror(d.v(), n.v(), fc); else p->Shift(d.v(), fc);
  V3 X0 = mir ? add(d, mirr(sub(st.X, d), n, nn)) : add(st.X, d), p0 = mir ? mirr(st.p, n, nn) : st.p;
  ProbeField f; f.mode = rest ? 0 : 3; p->StepVay(&f);
  EQV3("moved", V3(p->TrajPoint(1)), add(X0, mul(p0, SpeedOfLight * st.dt / st.g)), 3.0); EQ("time", p->TrajTime(1), st.t + st.dt);
  if (rest) { EQV3("momentum", V3(p->TrajMomentum(1)), mul(f.e[0], fc * st.qmt2 / SpeedOfLight), 1.0); } else EQV3("kept", V3(p->TrajMomentum(1)), p0, 3.0);
  vf_reach("shift_track");
}
// ---------------------------------------------------------------- C33
HARNESS(h_coord) {
  int np = vf_choice("points", 0, S(5, 7)); double T[8]; V3 X[8], P[8], A[8]; char b[8]; V3 z;
  for (int i = 0; i < np; i++) { double s = vf_real(idx(b, "s", i), 0.1, 1.0); ASSUME(s > 0.0); T[i] = i ? T[i - 1] + s : s - 0.5; X[i] = real3(idx(b, "X", i)); P[i] = real3(idx(b, "P", i)); }
  ChargedParticle *p = traj_particle(1.0, 1.0, np, T, X, P, A); Vector x(9, 9, 9), m(9, 9, 9);
  int seg = vf_choice("segment", -1, np > 0 ? np - 1 : 0); double f = vf_real("fraction", 0.0, 1.0), t; ASSUME(f >= 0.0); V3 ex, ep;
  if (np == 0) t = f - 0.5;
  else if (seg < 0) { ASSUME(f > 0.0); t = T[0] - f; }
  else if (seg == np - 1) { if (vf_choice("exact", 0, 1)) { t = T[np - 1]; ex = X[np - 1]; ep = P[np - 1]; } else { ASSUME(f > 0.0); t = T[np - 1] + f; } }
  else { ASSUME(f < 1.0); t = T[seg] + (T[seg + 1] - T[seg]) * f; ex = add(mul(X[seg], 1.0 - f), mul(X[seg + 1], f)); ep = add(mul(P[seg], 1.0 - f), mul(P[seg + 1], f)); }
  p->CoordinatesAtTime(t, &x, &m); EQV3("position", V3(x), ex, 1.0); EQV3("momentum", V3(m), ep, 1.0); OBS3("x", V3(x)); vf_reach("coord");
}
