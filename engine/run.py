"""Driver: builds the IR of the real code plus a harness, explores all paths symbolically, validates finished
paths and confirms every counterexample against the natively compiled real code, writes the evidence file."""
import sys, os, time, json, subprocess, tempfile, shutil, re, random, traceback, multiprocessing as mp, resource, signal, math
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CLANG): CLANG = "clang++"
LLINK = "/usr/lib/llvm-18/bin/llvm-link"
NPROC = int(os.environ.get("VF_PROCS", "8"))

INC = lambda b: ["-I" + os.path.join(VERIF, "harness"), "-I" + b, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "lib/SDDS"), "-I/usr/include/hdf5/serial",
       "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "-I" + os.path.join(REPO, "lib/pugixml/src"), "-I" + os.path.join(REPO, "lib/pugixml"),
       "-I/usr/include/eigen3"]
IRFLAGS = ["-std=c++11", "-O1", "-frounding-math", "-I" + os.path.join(VERIF, "harness/inc"), "-include", "vf_noextern.h", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-jump-tables", "-fno-pie", "-fno-pic", "-fno-access-control",
           "-w", "-S", "-emit-llvm", "-DVF_HARNESS", "-DVF_SYM"]
NATFLAGS = ["-std=c++11", "-O1", "-g0", "-w", "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-fno-access-control", "-DVF_HARNESS", "-ffunction-sections"]

PLAIN = ["-std=c++11", "-O1", "-g0", "-w", "-DVF_HARNESS"]
# checks of parallel regions: instrumented like for ThreadSanitizer, but run on the runtime in omp_native.cpp
def NATCC(thr): return [CLANG] + PLAIN + ["-fopenmp", "-fsanitize=thread", "-fno-access-control", "-ffunction-sections", "-fno-pie", "-fno-pic", "-I" + os.path.join(VERIF, "harness/inc")] if thr else ["g++"] + NATFLAGS
def NATLD(thr): return ["g++", "-no-pie", "-Wl,--wrap=free,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock"] if thr else ["g++"] + NATFLAGS
class BuildError(Exception): pass

def make_config(b):
    s = open(os.path.join(REPO, "src/config.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    v = dict(re.findall(r"set\s*\(\s*(TEUFEL_VERSION_\w+)\s+(\w+)\s*\)", cm))
    open(os.path.join(b, "config.h"), "w").write(re.sub(r"@(\w+)@", lambda m: v.get(m.group(1), "0"), s))

def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def build(cases, b):
    """compiles IR and native binary of every unit; a unit = (harness, sources, defs)"""
    make_config(b)
    units = {}
    for c in cases:
        key = (c["harness"], tuple(c["sources"]), tuple(c.get("defs", ())), c.get("threads", False))
        units.setdefault(key, []).append(c)
    jobs = {}; link = []
    for n, (key, cs) in enumerate(units.items()):
        har, srcs, defs, thr = key
        d = list(defs); natcc = NATCC(thr)
        objs_ir = []; objs_n = []
        hp = os.path.join(VERIF, "harness", har)
        for src in [hp] + [os.path.join(REPO, "src", s) if not s.startswith("/") else s for s in srcs]:
            tag = os.path.basename(src).replace(".cpp", "") + "_%x" % (hash((src, defs)) & 0xffffffff)
            ir = os.path.join(b, tag + ".ll"); o = os.path.join(b, tag + ".o")
            jobs[ir] = [CLANG] + IRFLAGS + (["-fopenmp"] if thr else []) + d + INC(b) + [src, "-o", ir]
            jobs[o] = natcc + d + INC(b) + ["-c", src, "-o", o]
            objs_ir.append(ir); objs_n.append(o)
        vn = os.path.join(b, "vf_native%d.o" % thr)
        jobs[vn] = ["g++"] + (PLAIN if thr else NATFLAGS) + INC(b) + ["-c", os.path.join(VERIF, "harness/vf_native.cpp"), "-o", vn]
        if thr: jobs[os.path.join(b, "omp_native.o")] = ["g++"] + PLAIN + ["-c", os.path.join(VERIF, "harness/omp_native.cpp"), "-o", os.path.join(b, "omp_native.o")]; objs_n.append(os.path.join(b, "omp_native.o"))
        bc = os.path.join(b, "unit%d.bc" % n); exe = os.path.join(b, "unit%d.exe" % n)
        link.append((objs_ir, objs_n + [vn], bc, exe, cs))
    from concurrent.futures import ThreadPoolExecutor
    errs = []
    def job(kv):
        rc, out = sh(kv[1])
        if rc: errs.append((os.path.basename(kv[0]), out[-3000:]))
    with ThreadPoolExecutor(NPROC) as tp: list(tp.map(job, jobs.items()))
    if errs: raise BuildError("\n".join("%s:\n%s" % e for e in errs))
    def lk(l):
        objs_ir, objs_n, bc, exe, cs = l
        rc, out = sh([LLINK] + objs_ir + ["-o", bc])
        if rc: errs.append(("llvm-link", out[-2000:]))
        rc, out = sh(NATLD(cs[0].get("threads")) + objs_n + ["-Wl,--gc-sections", "-o", exe] + cs[0].get("ldflags", []))
        if rc and "undefined reference" in out: rc, out = widen(objs_ir, objs_n, bc, exe, cs, b, out)
        if rc: errs.append(("native link", out[-3000:]))
        for c in cs: c["bc"] = bc; c["exe"] = exe
    with ThreadPoolExecutor(NPROC) as tp: list(tp.map(lk, link))
    if errs: raise BuildError("\n".join("%s:\n%s" % e for e in errs))

def widen(objs_ir, objs_n, bc, exe, cs, b, out):
    """the code calls something outside the listed sources: the rest of the library is offered to both linkers (first definition wins)"""
    import glob
    from concurrent.futures import ThreadPoolExecutor
    have = set(cs[0]["sources"]) | {"teufel.cpp", "teufel_hybrid.cpp", "propagate.cpp", "reflection.cpp"}
    d = list(cs[0].get("defs", ())); w = tempfile.mkdtemp(dir=b); irs = []; os_ = []; jobs = []
    for src in sorted(glob.glob(os.path.join(REPO, "src/*.cpp"))):
        n = os.path.basename(src)
        if n in have or re.search(r"\bint\s+main\s*\(", open(src, errors="replace").read()): continue
        irs.append(os.path.join(w, n + ".ll")); os_.append(os.path.join(w, n + ".o"))
        thr = cs[0].get("threads"); jobs += [[CLANG] + IRFLAGS + (["-fopenmp"] if thr else []) + d + INC(b) + [src, "-o", irs[-1]], NATCC(thr) + d + INC(b) + ["-c", src, "-o", os_[-1]]]
    with ThreadPoolExecutor(NPROC) as tp: list(tp.map(sh, jobs))
    irs = [x for x in irs if os.path.exists(x)]; os_ = [x for x in os_ if os.path.exists(x)]
    ar = os.path.join(w, "rest.a"); sh(["ar", "rcs", ar] + os_)
    rc, o2 = sh([LLINK, "--only-needed", bc] + irs + ["-o", bc + ".w"])
    if rc == 0: os.replace(bc + ".w", bc)
    return sh(NATLD(cs[0].get("threads")) + objs_n + ["-Wl,--gc-sections", "-Wl,-z,muldefs", ar, "-o", exe] + cs[0].get("ldflags", []))

# ------------------------------------------------------------------------------------------------ workers
def worker_main(conn, cases, seed):
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import symex
    progs = {}; exs = {}
    while True:
        m = conn.recv()
        if m is None: return
        ci, prefix, asg = m
        c = cases[ci]
        try:
            if c["bc"] not in progs: progs[c["bc"]] = symex.Program(c["bc"])
            ex = exs.get(ci)
            if ex is None:
                ex = exs[ci] = symex.Executor(progs[c["bc"]], c["entry"], seed=seed, max_steps=c.get("max_steps", 3000000), qtimeout=c.get("qtimeout", 4000))
            st0 = dict(ex.stats.asdict())
            t0 = time.time()
            status, msg = ex.run(prefix, asg)
            st1 = ex.stats.asdict()
            obs = []
            for n, v in ex.obs:
                try: obs.append((n, float(ex.ev(v)) if not symex.special(v) else None))
                except Exception: obs.append((n, None))
            r = dict(ci=ci, status=status, msg=msg, results=ex.results, spawn=ex.spawn, obs=obs, asg=ex.asg, wit=ex.have_witness, ntrace=len(ex.trace),
                     nfork=sum(1 for t in ex.trace if not t[1]), stats={k: st1[k] - st0[k] for k in st1}, funcs=list(ex.funcs_seen), notes=list(ex.notes), assumed=ex.assumed,
                     reached=list(ex.reached), steps=ex.steps, pc=len(ex.pc), t=time.time() - t0)
        except Exception as e:
            r = dict(ci=ci, status="unsupported", msg="engine: " + repr(e) + " ".join(traceback.format_exc().split())[-700:], results=[], spawn=[], obs=[], asg=dict(asg or {}), wit=False, ntrace=0, nfork=0, stats={}, funcs=[], notes=[],
                     assumed=[], reached=[], steps=0, pc=0, t=0)
            try:
                r["spawn"] = ex.spawn; r["asg"] = ex.asg; r["results"] = ex.results
            except Exception: pass
        r["rss"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        conn.send(r)

class Pool:
    def __init__(self, cases, seed, n):
        self.cases = cases; self.seed = seed; self.w = []
        for _ in range(n): self.w.append(self.spawn())
    def spawn(self):
        a, b = mp.Pipe()
        p = mp.Process(target=worker_main, args=(b, self.cases, self.seed), daemon=True); p.start(); b.close()
        return dict(p=p, c=a, busy=None, t=0)
    def kill(self, w):
        try: w["p"].kill(); w["p"].join(5); w["c"].close()
        except Exception: pass
    def close(self):
        for w in self.w: self.kill(w)

def explore(cases, seed, budget, verbose):
    t0 = time.time()
    pool = Pool(cases, seed, NPROC)
    queues = [[([], {})] for _ in cases]
    done = [[] for _ in cases]; started = [0] * len(cases); truncated = [None] * len(cases)
    rr = 0
    tasklimit = 150
    from multiprocessing.connection import wait
    try:
        while True:
            for k, w in enumerate(pool.w):
                if w["busy"] is None:
                    pick = None
                    for i in range(len(cases)):
                        j = (rr + i) % len(cases)
                        if queues[j]:
                            if started[j] >= cases[j].get("max_paths", 4000): truncated[j] = "path limit"; queues[j] = []; continue
                            pick = j; break
                    if pick is None: continue
                    rr = pick + 1
                    pre, asg = queues[pick].pop()
                    started[pick] += 1
                    w["busy"] = (pick, pre, asg); w["t"] = time.time()
                    w["c"].send((pick, pre, asg))
            busy = [w for w in pool.w if w["busy"] is not None]
            if not busy: break
            ready = wait([w["c"] for w in busy], timeout=1.0)
            now = time.time()
            for k, w in enumerate(pool.w):
                if w["busy"] is None: continue
                if w["c"] in ready:
                    try: r = w["c"].recv()
                    except (EOFError, OSError):
                        ci, pre, asg = w["busy"]
                        done[ci].append(dict(ci=ci, status="lost", msg="worker died", results=[], asg=asg or {}, obs=[], wit=False, ntrace=0, nfork=0, stats={}, funcs=[], notes=[], assumed=[], reached=[], steps=0, pc=0, t=0))
                        pool.kill(w); pool.w[k] = pool.spawn(); continue
                    ci = r["ci"]
                    for s in r.pop("spawn"): queues[ci].append(s)
                    done[ci].append(r); w["busy"] = None
                    if verbose: print("  case %s path %d: %s %s forks=%d steps=%d t=%.1f pc=%d unk=%d fail=%d q=%s" % (cases[ci]["entry"], len(done[ci]), r["status"], r["msg"][:900], r["nfork"], r["steps"], r["t"], r["pc"], sum(1 for x in r["results"] if x[1] == "unknown"), sum(1 for x in r["results"] if x[1] == "fail"), {k: fnum(v) for k, v in list(r["asg"].items())[:14]} if any(x[1] != "ok" for x in r["results"]) else r["stats"]), flush=True)
                    if r["rss"] > 2500000: pool.kill(w); pool.w[k] = pool.spawn()
                elif now - w["t"] > tasklimit:
                    ci, pre, asg = w["busy"]
                    done[ci].append(dict(ci=ci, status="timeout", msg="path exceeded %ds" % tasklimit, results=[], asg=asg or {}, obs=[], wit=False, ntrace=0, nfork=0, stats={}, funcs=[], notes=[], assumed=[], reached=[], steps=0, pc=0, t=tasklimit))
                    pool.kill(w); pool.w[k] = pool.spawn()
            if now - t0 > budget:
                for j in range(len(cases)):
                    if queues[j] or any(w["busy"] and w["busy"][0] == j for w in pool.w): truncated[j] = "time budget"
                break
    finally:
        pool.close()
    return done, truncated

# ------------------------------------------------------------------------------------------------ native
def fnum(v):
    if isinstance(v, bool): return "1" if v else "0"
    if isinstance(v, int) and abs(v) < 1 << 53: return str(v)
    try: return repr(float(v))
    except OverflowError: return "1e300"

def native(case, asg, b, tmo=20, jitter=None):
    fd, fn = tempfile.mkstemp(dir=b, suffix=".in")
    with os.fdopen(fd, "w") as f:
        for k, v in asg.items(): f.write("%s %s\n" % (k, fnum(v)))
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=100000000:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_odr_violation=0"
    env["OMP_NUM_THREADS"] = "1"
    if jitter is not None: env["VF_JITTER"] = str(jitter)
    sdir = tempfile.mkdtemp(dir=b)
    def lim(): resource.setrlimit(resource.RLIMIT_FSIZE, (100 << 20, 100 << 20))
    try:
        p = subprocess.Popen([case["exe"], fn, case["entry"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=sdir, preexec_fn=lim)
        try: out, _ = p.communicate(timeout=tmo); rc = p.returncode; hang = False
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); rc = -9; hang = True
    finally:
        shutil.rmtree(sdir, ignore_errors=True)
    out = out.decode("latin1")
    ended = "VF-END" in out
    fails = re.findall(r"^VF-FAIL (\S+)", out, re.M)
    return dict(rc=rc, hang=hang, crash=(not ended and not hang), assume="VF-ASSUME" in out, fails=fails, out=out[-3000:], full=out if jitter is not None else "", oks=re.findall(r"^VF-OK (\S+)", out, re.M),
                obs=[(a, float(v)) for a, v in re.findall(r"^VF-OBS (\S+) (\S+)", out, re.M)])

def close(a, b): return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-3) or (a != a and b != b)

# ------------------------------------------------------------------------------------------------ main
def main(pid, tier):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import props
    spec = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in sys.argv
    only = [a[5:] for a in sys.argv if a.startswith("case=")]
    cases = [dict(c) for c in spec["cases"] if (tier == "thorough" or not c.get("thorough_only"))]
    if only: cases = [c for c in cases if c["entry"] in only]
    for c in cases:
        c.setdefault("sources", spec.get("sources", [])); c.setdefault("harness", spec.get("harness")); c.setdefault("defs", spec.get("defs", [])); c.setdefault("threads", spec.get("threads", False))
        if tier == "thorough": c["qtimeout"] = 5 * c.get("qtimeout", 4000); c["max_paths"] = 10 * c.get("max_paths", 4000)
        if tier == "thorough" and "thorough_defs" in spec: c["defs"] = list(c["defs"]) + spec["thorough_defs"]
    budget = spec.get("budget", 300) if tier == "quick" else spec.get("thorough_budget", 3000)
    t0 = time.time()
    b = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        return run_all(pid, tier, spec, cases, seed, budget, verbose, b, t0)
    finally:
        if not os.environ.get("VF_KEEP"): shutil.rmtree(b, ignore_errors=True)
        else: print("kept", b)

def write_evidence(pid, ev):
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try: return json.load(open(p))
    except Exception: return {"findings": []}

def run_all(pid, tier, spec, cases, seed, budget, verbose, b, t0):
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", violations=0, wall_s=0.0,
              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[]),
              assumptions=list(spec.get("assumptions", [])))
    cov = ev["coverage"]
    cov["bounds"] = spec.get("bounds", "")
    try:
        build(cases, b)
    except (BuildError, subprocess.TimeoutExpired) as e:
        print("INCONCLUSIVE property=%s the harness does not build against this tree" % pid)
        print(str(e)[-4000:])
        cov["samples"] = [{"build": str(e)[-1500:]}]; cov["inconclusive"] = "build failed"
        ev["wall_s"] = round(time.time() - t0, 2); write_evidence(pid, ev); return 2
    tb = time.time() - t0
    done, trunc = explore(cases, seed, max(30, budget - tb), verbose)
    te = time.time() - t0
    # ---- collect
    stats = {}; funcs = set(); notes = set(); assumed = {}; byhow = {}; checks = {}; statuses = {}
    incon = []; fails = []      # (ci, name, asg, kind)
    reached = [set() for _ in cases]
    npaths = 0; nforks = 0; steps = 0
    for ci, rs in enumerate(done):
        for r in rs:
            npaths += 1; nforks += r["nfork"]; steps += r["steps"]
            for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
            funcs.update(r["funcs"]); notes.update(r["notes"]); reached[ci].update(r["reached"])
            for a in r["assumed"]: assumed[a] = assumed.get(a, 0) + 1
            statuses[r["status"]] = statuses.get(r["status"], 0) + 1
            for x in r["results"]:
                name, st, how = x[:3]
                d = checks.setdefault(name, {"ok": 0, "fail": 0, "unknown": 0}); d[st] += 1
                byhow[how] = byhow.get(how, 0) + (st == "ok")
                if st == "fail": fails.append((ci, name, x[3] if len(x) > 3 else r["asg"], how))
                if st == "unknown": incon.append((ci, "check %s undecided" % name, x[3] if len(x) > 3 else r["asg"]))
            if r["status"] in ("uncaught",): fails.append((ci, "uncaught-exception", r["asg"], "uncaught"))
            if r["status"] in ("steps", "unreachable"): fails.append((ci, r["status"], r["asg"], r["status"]))
            if r["status"] == "memerr" and not any(x[1] == "fail" for x in r["results"]): fails.append((ci, "memory:" + r["msg"], r["asg"], "memerr"))
            if r["status"] in ("unsupported", "timeout", "lost"): incon.append((ci, r["status"] + ": " + r["msg"][:900], r["asg"]))
            if r["status"] == "exit" and not cases[ci].get("exit_ok"): fails.append((ci, "exit", r["asg"], "exit"))
        if trunc[ci]: incon.append((ci, "exploration truncated: " + trunc[ci], None))
        for l in cases[ci].get("reach", []):
            if l not in reached[ci]: incon.append((ci, "label %s not reached" % l, None))
        if not cases[ci].get("reach") and not any(x for r in rs for x in r["results"]) : incon.append((ci, "no check reached in " + cases[ci]["entry"], None))
    # ---- confirm failures natively
    from concurrent.futures import ThreadPoolExecutor
    groups = {}
    for f in fails: groups.setdefault((f[0], f[1]), []).append(f)
    todo = []
    for g, fs in groups.items():
        rnd = random.Random(seed); sel = fs if len(fs) <= 6 else fs[:3] + rnd.sample(fs[3:], 3)
        todo += sel
    confirmed = []; unconf = []
    def conf(f):
        return f, native(cases[f[0]], f[2] or {}, b)
    with ThreadPoolExecutor(NPROC) as tp:
        for f, n in tp.map(conf, todo[:200]):
            bad = n["fails"] or n["crash"] or n["hang"]
            if n["assume"] and not n["fails"] and not n["crash"]: bad = False
            (confirmed if bad else unconf).append((f, n))
    # a failure decided by the solver whose model shows it only in symbols (elementary functions, differences below the
    # tolerance of the replay): the real code is run on other values of the real inputs for the same choices
    okgroups = {(f[0], f[1]) for f, n in confirmed}
    left = [(g, f) for g, f in {(f[0], f[1]): f for f, n in unconf}.items() if g not in okgroups]
    alts = {}
    for f, n in unconf: alts.setdefault((f[0], f[1]), []).append(f)
    def vary(x):
        g, f = x
        for k in range(1, 37):
            h = alts[g][k % len(alts[g])]
            n = native(cases[g[0]], h[2] or {}, b, jitter=k)
            if n["assume"] or n["hang"] or n["crash"]: continue
            if g[1] in n["fails"]:
                asg = dict(h[2] or {}); asg.update((a, float(v)) for a, v in re.findall(r"^VF-VAL (\S+) (\S+)", n["full"], re.M))
                m = native(cases[g[0]], asg, b)
                if g[1] in m["fails"] and not m["assume"]: return (h[0], h[1], asg, h[3] + ", varied"), m
        return None
    with ThreadPoolExecutor(NPROC) as tp:
        for r in tp.map(vary, left[:40]):
            if r: confirmed.append(r)
    # paths the engine could not finish: the real code is run on the solver's model of the path prefix
    extra = [(ci, what, asg) for ci, what, asg in incon if asg is not None][:80]
    # ---- validate finished paths
    rnd = random.Random(seed)
    val = []
    cap = spec.get("validate", 60)
    for ci, rs in enumerate(done):
        ok = [r for r in rs if r["status"] in ("done",) and r["wit"]]
        if len(ok) > cap // max(1, len(cases)) + 3: ok = rnd.sample(ok, cap // max(1, len(cases)) + 3)
        val += [(ci, r) for r in ok]
    nval = 0; mism = []; skipped = 0; samples = []
    def vrun(x):
        ci, r = x; return ci, r, native(cases[ci], r["asg"], b)
    with ThreadPoolExecutor(NPROC) as tp:
        for ci, r, n in tp.map(vrun, val):
            symfail = {x[0] for x in r["results"] if x[1] == "fail"}
            if n["assume"]: skipped += 1; continue
            if n["crash"] or n["hang"]:
                if n["crash"]:
                    f = (ci, "native-crash", r["asg"], "native"); confirmed.append((f, n))
                else: mism.append((cases[ci]["entry"], "native run does not terminate"))
                continue
            bad = []
            if set(n["fails"]) - symfail: bad.append("native check fails: %s" % (sorted(set(n["fails"]) - symfail)[:3],))
            so = r["obs"]
            if len(so) == len(n["obs"]):
                for (a, x), (c, y) in zip(so, n["obs"]):
                    if a != c or (x is not None and not close(x, y)): bad.append("observation %s: %s vs %s %s" % (a, x, c, y)); break
            else: bad.append("different number of observations")
            if bad: mism.append((cases[ci]["entry"], bad[0], {k: fnum(v) for k, v in list(r["asg"].items())[:12]}))
            else: nval += 1
            if len(samples) < 3: samples.append(dict(case=cases[ci]["entry"], path_decisions=r["nfork"], model={k: fnum(v) for k, v in list(r["asg"].items())[:16]}, checks=sorted({x[0] for x in r["results"]})[:12], native=n["oks"][:6]))
        for f, n in tp.map(lambda f: (f, native(cases[f[0]], f[2], b)), extra):
            if n["crash"] or (n["fails"] and not n["assume"]):
                confirmed.append(((f[0], (n["fails"] or ["crash"])[0], f[2], "native replay of a model of an unfinished path: " + f[1][:120]), n))
    # ---- known findings
    kf = known_findings()["findings"]
    viol = []; knownhit = {}
    for f, n in confirmed:
        names = set(n["fails"]) if n["fails"] else set()
        names.add(f[1])
        hit = None
        for k in kf:
            if k["property"] != pid or k.get("status") == "fixed": continue
            if k["case"] != cases[f[0]]["entry"]: continue
            if all(re.fullmatch(k["check"], x) for x in names): hit = k; break
        if hit: knownhit.setdefault(hit["id"], (hit, f, n))
        else: viol.append((f, n))
    for hid, (k, f, n) in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # ---- evidence
    cov["states"] = npaths + nforks; cov["transitions"] = nforks + sum(d["ok"] + d["fail"] + d["unknown"] for d in checks.values())
    cov["traces_validated_against_impl"] = nval
    cov["samples"] = samples or [{"case": c["entry"]} for c in cases][:2]
    cov["paths"] = npaths; cov["path_status"] = statuses; cov["instructions_executed"] = steps
    cov["cases"] = {c["entry"]: {"paths": len(done[i]), "bounds": c.get("bounds", ""), "exhausted": not trunc[i]} for i, c in enumerate(cases)}
    cov["functions_encoded"] = demangle(sorted(funcs))
    cov["queries"] = stats.get("queries", 0); cov["queries_unsat"] = stats.get("unsat", 0); cov["queries_sat"] = stats.get("sat", 0); cov["queries_unknown"] = stats.get("unknown", 0)
    cov["identities_confirmed_by_smt"] = stats.get("confirmed", 0); cov["identities_by_normal_form"] = stats.get("algebraic", 0)
    cov["solver_time_s"] = round(stats.get("time", 0), 2)
    cov["obligations_by_method"] = byhow
    cov["checks"] = checks
    cov["unconfirmed"] = [(cases[f[0]]["entry"], f[1], f[3]) for f, n in unconf][:20]
    cov["inconclusive"] = sorted({cases[ci]["entry"] + ": " + w for ci, w, a in incon})[:40]
    cov["validation_mismatches"] = mism[:10]; cov["validation_skipped_rounding"] = skipped
    cov["exclusions"] = sorted(notes); cov["assumed_undecided"] = assumed
    cov["exhaustive"] = not incon
    cov["rule"] = "paths of the real code over symbolic inputs; every path is one set of inputs decided by the solver"
    ev["violations"] = len(viol); ev["wall_s"] = round(time.time() - t0, 2)
    write_evidence(pid, ev)
    tot = sum(d["ok"] for d in checks.values())
    print("property %s: %d paths, %d obligations proved, %d undecided, %d queries, solver %.1fs, %d paths validated natively, build %.1fs explore %.1fs total %.1fs" %
          (pid, npaths, tot, sum(d["unknown"] for d in checks.values()), stats.get("queries", 0), stats.get("time", 0), nval, tb, te - tb, time.time() - t0))
    for x in cov["inconclusive"][:12]: print("INCONCLUSIVE", x)
    for x in mism[:5]: print("VALIDATION-MISMATCH", x)
    for f, n in unconf[:8]: print("UNCONFIRMED", cases[f[0]]["entry"], f[1], f[3], {k: fnum(v) for k, v in list((f[2] or {}).items())[:30]} if verbose else "", n["out"][-600:] if verbose else "")
    if viol:
        f, n = viol[0]
        rp = os.path.join(VERIF, "evidence", pid + ".replay.json")
        with open(rp, "w") as fo:
            json.dump(dict(property=pid, case=cases[f[0]]["entry"], harness=cases[f[0]]["harness"], check=f[1], how=f[3], inputs={k: fnum(v) for k, v in (f[2] or {}).items()}, native_fails=n["fails"], native_output=n["out"],
                           others=[(cases[g[0]]["entry"], g[1]) for g, _ in viol[1:20]]), fo, indent=1)
        for g, m in viol[:10]: print("  failed: %s / %s (%s) native: %s" % (cases[g[0]]["entry"], g[1], g[3], m["fails"][:3] or ("crash" if m["crash"] else "hang")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0

def demangle(l):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(l), text=True, stdout=subprocess.PIPE); l = p.stdout.split("\n")
    except Exception: pass
    own = [x for x in l if not x.startswith(("std::", "void std::", "__gnu", "bool std::", "double std::", "double* std::", "unsigned long std::", "int std::", "void __gnu"))]
    return own[:200]

if __name__ == "__main__":
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") and "=" not in sys.argv[2] else os.environ.get("VERIF_TIER", "quick")
    try: rc = main(pid, tier)
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the check itself failed" % pid); rc = 2
    sys.exit(rc)
