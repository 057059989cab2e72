"""OpenMP at the level of the calls clang emits (libomp entry points).  A parallel region is executed by a team of T simulated threads
one after the other up to the next barrier; every memory access is recorded per thread, barrier interval and held locks.  At the end of a
region the solver is asked, for every object touched, for two threads and a byte that one of them writes and the other accesses in the same
barrier interval without a common lock (accesses of atomic operations do not conflict with each other)."""
import threading, sys, time
import z3
from terms import *
import symex
from symex import SLOT, HALF, OMASK, PathEnd, CxxThrow, Exit, Unsupported, Bits

class Abort(BaseException): pass

class Thread:
    def __init__(self, tid):
        self.tid = tid; self.sem = threading.Semaphore(0); self.state = "new"; self.err = None
        self.depth = 0; self.va = []; self.exc = []; self.locks = frozenset(); self.singles = 0; self.loops = 0; self.cur = None; self.tls = {}

class Omp:
    def __init__(self, ex):
        self.ex = ex; self.reset()
    def reset(self):
        self.T = 1; self.rot = 0; self.rev = False; self.want = None
        self.team = None; self.me = None; self.log = None; self.phase = 0; self.quiet = 0; self.regions = 0; self.shared = 0; self.tlsmap = {}
    # --- memory accesses
    def access(self, kind, oid, off, size):
        if self.quiet or self.me is None: return
        d = self.log[-1].setdefault(oid, {})
        d.setdefault((self.me.tid, kind, self.me.locks), set()).add((off, size))
    # --- parallel regions
    def fork(self, loc, n, fn, *args):
        ex = self.ex; T = self.want if self.want is not None else self.T; self.want = None
        F = ex.prog.fbyaddr.get(fn)
        if F is None: ex.memerr("parallel region without function")
        if self.team is not None or T <= 1:      # nested regions are executed by the encountering thread
            me = self.me; g = ex.alloc(4, "stack", "gtid"); ex.store(g, me.tid if me else 0, I32())
            if self.team is None:
                t = self.T; self.T = 1
                try: ex.call_func(F, [g, g] + list(args))
                finally: self.T = t
            else: ex.call_func(F, [g, g] + list(args))
            return None
        self.regions += 1
        team = [Thread(t) for t in range(T)]; self.team = team; self.log = [{}]; self.back = threading.Semaphore(0); self.dispatch = {}; self.singles = {}
        base = (ex.depth, ex.vastack, ex.exc_current)
        def body(th):
            th.sem.acquire()
            try:
                if self.aborting: return
                g = ex.alloc(4, "stack", "gtid"); ex.store(g, th.tid, I32())
                ex.call_func(F, [g, g] + list(args))
            except Abort: pass
            except CxxThrow as e:
                th.err = PathEnd("uncaught", "exception leaves a parallel region")
                ex.results.append(("exception-in-parallel-region", "fail", "omp"))
            except BaseException as e: th.err = e
            finally:
                th.state = "done"; self.back.release()
        self.aborting = False
        old = threading.stack_size(256 << 20)
        try:
            for th in team: th.py = threading.Thread(target=body, args=(th,), daemon=True); th.py.start()
        finally: threading.stack_size(old)
        err = None
        try:
            while err is None and any(th.state != "done" for th in team):
                order = list(team)
                if self.rev: order.reverse()
                for th in order:
                    if th.state == "done": continue
                    th.state = "run"; self.me = th; ex.depth = base[0] + th.depth; ex.vastack = th.va; ex.exc_current = th.exc
                    th.sem.release(); self.back.acquire()
                    th.depth = ex.depth - base[0]
                    if th.err is not None: err = th.err; break
                if err is None: self.log.append({}); self.phase += 1
        finally:
            self.me = None; self.aborting = True
            for th in team:
                if th.state != "done": th.sem.release()
            for th in team: th.py.join()
            ex.depth, ex.vastack, ex.exc_current = base; self.team = None
        if err is not None: raise err
        self.judge(); self.log = None
        return None
    def barrier(self, *a):
        if self.me is None: return None
        th = self.me; ex = self.ex; sv = (ex.depth, ex.vastack, ex.exc_current)
        th.state = "barrier"; self.back.release(); th.sem.acquire()
        if self.aborting: raise Abort()
        ex.depth, ex.vastack, ex.exc_current = sv
        return None
    # --- the decision
    def judge(self):
        ex = self.ex; bad = None; nobj = 0
        for ph in self.log:
            for oid, d in ph.items():
                tids = {k[0] for k in d}
                if len(tids) < 2 or not any(k[1][-1] == "w" for k in d): continue
                nobj += 1
                x = z3.Int("byte"); s = z3.Int("thread_s"); t = z3.Int("thread_t"); alts = []
                keys = list(d)
                def cov(k):
                    iv = []          # merged intervals
                    for o, n in sorted(d[k]):
                        if iv and o <= iv[-1][1]: iv[-1][1] = max(iv[-1][1], o + n)
                        else: iv.append([o, o + n])
                    return z3.Or([z3.And(x >= a, x < b) for a, b in iv])
                cs = {k: cov(k) for k in keys}
                for i, k in enumerate(keys):
                    for l in keys[i + 1:]:
                        if k[0] == l[0] or (k[1][-1] == "r" and l[1][-1] == "r") or (k[1][0] == "a" and l[1][0] == "a") or (k[2] & l[2]): continue
                        alts.append(z3.And(s == k[0], t == l[0], cs[k], cs[l]))
                if not alts: ex.stats.queries += 0; continue
                sol = z3.Solver(); sol.add(s != t, z3.Or(alts)); t0 = time.time(); r = sol.check(); ex.stats.time += time.time() - t0; ex.stats.queries += 1
                if r == z3.unsat: ex.stats.unsat += 1
                else:
                    ex.stats.sat += 1; m = sol.model()
                    o = ex.objs.get(oid); bad = "threads %s and %s, byte %s of a %s object of %s bytes %s" % (m[s], m[t], m[x], o.kind if o else "?", o.size if o else "?", o.name if o else "")
        self.shared += nobj
        if bad: ex.notes.add("conflict: " + bad)
        ex.results.append(("data-race", "fail" if bad else "ok", "smt"))

_i = {}
def I32():
    if 32 not in _i:
        t = symex.llvmir.Ty(); t.kind = "int"; t.width = 32; t.size = 4; t.store = 4; t.elems = t.offs = t.elem = None; t.n = 0; t.ptr = None; _i[32] = t
    return _i[32]
def I64():
    if 64 not in _i:
        t = symex.llvmir.Ty(); t.kind = "int"; t.width = 64; t.size = 8; t.store = 8; t.elems = t.offs = t.elem = None; t.n = 0; t.ptr = None; _i[64] = t
    return _i[64]

def install(ex):
    H = ex.handlers; om = ex.omp = Omp(ex); C = lambda v: ex.concretize(v) if isinstance(v, Node) else v
    tid = lambda: om.me.tid if om.me else 0
    H["__kmpc_global_thread_num"] = lambda *a: tid()
    H["omp_get_thread_num"] = tid
    H["omp_get_num_threads"] = lambda: len(om.team) if om.team else 1
    H["omp_get_max_threads"] = lambda: om.T
    H["omp_get_num_procs"] = lambda: om.T
    H["omp_in_parallel"] = lambda: 1 if om.team else 0
    H["omp_get_level"] = lambda: 1 if om.team else 0
    def setn(n): om.T = max(1, C(n))
    H["omp_set_num_threads"] = setn
    for n in ("omp_set_dynamic", "omp_set_nested", "omp_set_schedule"): H[n] = lambda *a: None
    H["omp_get_dynamic"] = lambda: 0
    def push(loc, g, n): om.want = max(1, C(n))
    H["__kmpc_push_num_threads"] = push
    H["__kmpc_push_proc_bind"] = lambda *a: None
    H["__kmpc_fork_call"] = om.fork
    for n in ("__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_flush", "__kmpc_begin", "__kmpc_end"): H[n] = lambda *a: None
    H["__kmpc_barrier"] = H["__kmpc_cancel_barrier"] = om.barrier
    def threads(n, order):        # vf_threads: threads of the following regions, which of them gets the first block, order of execution
        om.T = C(n); o = C(order); om.rot = o & 1; om.rev = bool(o & 2)
    H["vf_threads"] = threads
    # --- work sharing
    def me_team():
        return (om.me.tid + om.rot) % len(om.team) if om.me else 0, len(om.team) if om.me else 1
    def static_init(loc, g, sched, plast, plow, pup, pstr, inc, chunk, ty, bits, unsigned):
        t, T = me_team(); rd = lambda p: C(ex.load(p, ty)); lo = rd(plow); up = rd(pup); inc = C(inc); chunk = C(chunk); sched = C(sched) & 0xffff
        if unsigned: lo &= (1 << bits) - 1; up &= (1 << bits) - 1
        def wr(p, v):
            v &= (1 << bits) - 1; ex.store(p, v - (1 << bits) if v >> (bits - 1) else v, ty)
        om.quiet += 1
        n = (up - lo) // inc + 1 if inc > 0 else (lo - up) // -inc + 1
        if n < 0: n = 0
        last = 0
        if sched in (33, 45, 93, 161):          # chunked
            if chunk < 1: chunk = 1
            span = chunk * inc; wr(pstr, span * T); wr(plow, lo + span * t); wr(pup, lo + span * t + span - inc); last = n > 0 and ((n - 1) // chunk) % T == t
        else:
            q, r = divmod(n, T); b = t * q + min(t, r); e = b + q + (1 if t < r else 0)
            if e > b: wr(plow, lo + b * inc); wr(pup, lo + (e - 1) * inc); last = e == n
            else: wr(plow, up + inc); wr(pup, up)
            wr(pstr, up - lo + inc if n else inc)
        if plast: ex.store(plast, 1 if last else 0, I32())
        om.quiet -= 1
        return None
    for sfx, ty, b, u in (("4", I32, 32, False), ("4u", I32, 32, True), ("8", I64, 64, False), ("8u", I64, 64, True)):
        H["__kmpc_for_static_init_" + sfx] = (lambda ty, b, u: lambda *a: static_init(*a, ty(), b, u))(ty, b, u)
        def dinit(loc, g, sched, lo, up, st, chunk, u=u, b=b):
            th = om.me; k = th.loops if th else 0; lo, up, st, chunk = C(lo), C(up), C(st), max(1, C(chunk)); t, T = me_team()
            if u: lo &= (1 << b) - 1; up &= (1 << b) - 1
            n = max(0, (up - lo) // st + 1 if st > 0 else (lo - up) // -st + 1); ch = [(i, min(i + chunk, n)) for i in range(0, n, chunk)]
            th_cur = [(lo + i * st, lo + (j - 1) * st, st, j == n) for m, (i, j) in enumerate(ch) if m % T == t]
            if th: th.cur = th_cur; th.loops += 1
            else: om.seqcur = th_cur
        def dnext(loc, g, plast, plo, pup, pst, ty=ty):
            cur = om.me.cur if om.me else om.seqcur
            if not cur: return 0
            lo, up, st, last = cur.pop(0); om.quiet += 1
            ex.store(plo, lo, ty()); ex.store(pup, up, ty()); ex.store(pst, st, ty())
            if plast: ex.store(plast, 1 if last else 0, I32())
            om.quiet -= 1
            return 1
        H["__kmpc_dispatch_init_" + sfx] = dinit; H["__kmpc_dispatch_next_" + sfx] = dnext; H["__kmpc_dispatch_fini_" + sfx] = lambda *a: None
    H["__kmpc_for_static_fini"] = lambda *a: None; H["__kmpc_dispatch_deinit"] = lambda *a: None
    def single(*a):
        if om.me is None: return 1
        k = om.me.singles; om.me.singles += 1
        if k in om.singles: return 0
        om.singles[k] = om.me.tid; return 1
    H["__kmpc_single"] = single; H["__kmpc_end_single"] = lambda *a: None
    H["__kmpc_master"] = lambda *a: 1 if tid() == 0 else 0
    H["__kmpc_masked"] = lambda loc, g, f: 1 if tid() == C(f) else 0
    H["__kmpc_end_master"] = H["__kmpc_end_masked"] = lambda *a: None
    # --- locks
    def lock(p):
        if om.me: om.me.locks = om.me.locks | {p}
    def unlock(p):
        if om.me: om.me.locks = om.me.locks - {p}
    H["__kmpc_critical"] = H["__kmpc_critical_with_hint"] = lambda loc, g, l, *r: lock(l)
    H["__kmpc_end_critical"] = lambda loc, g, l: unlock(l)
    def red(loc, g, n, size, data, f, l): lock(l); return 1
    H["__kmpc_reduce"] = H["__kmpc_reduce_nowait"] = red
    def endred(loc, g, l): unlock(l)
    H["__kmpc_end_reduce_nowait"] = endred
    def endredb(loc, g, l): unlock(l); om.barrier()
    H["__kmpc_end_reduce"] = endredb
    for n in ("omp_init_lock", "omp_destroy_lock", "omp_init_nest_lock", "omp_destroy_nest_lock"): H[n] = lambda *a: None
    def olock(p): lock(p)
    H["omp_set_lock"] = H["omp_set_nest_lock"] = olock
    H["omp_unset_lock"] = H["omp_unset_nest_lock"] = unlock
    def plock(p): lock(p); return 0
    def punlock(p): unlock(p); return 0
    H["pthread_mutex_lock"] = H["pthread_mutex_trylock"] = plock; H["pthread_mutex_unlock"] = punlock
    H["omp_test_lock"] = lambda p: (lock(p), 1)[1]
    H["__gthread_active_p"] = lambda: 1
    # one-time initialisation of function-local statics happens before every use
    ga = H.get("__cxa_guard_acquire"); gr = H.get("__cxa_guard_release")
    if ga:
        def acq(p):
            om.quiet += 1
            r = ga(p)
            if not r: om.quiet -= 1
            return r
        def rel(p):
            om.quiet -= 1; return gr(p)
        H["__cxa_guard_acquire"] = acq; H["__cxa_guard_release"] = rel
    # thread-local variables
    def tls(p):
        if om.me is None or om.me.tid == 0: return p
        k = (om.me.tid, p >> SLOT); q = om.tlsmap.get(k)
        if q is None:
            o = ex.objs[p >> SLOT]; q = om.tlsmap[k] = ex.alloc(o.size, "heap", "thread-local"); om.quiet += 1; n = ex.objs[q >> SLOT]; n.fill = 0; g = ex.m.globals[o.name]; ex.write_const(n, 0, ex.m.const(symex.llvmir.GlobalInit(g.ptr)), g.ty); om.quiet -= 1
        return q + ((p & OMASK) - HALF)
    ex.tls = tls
