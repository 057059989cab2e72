"""Library functions the executed code calls but which are not part of the IR: C and C++ runtime, libm,
floating point intrinsics, and the harness interface (vf_*)."""
import math, re, struct
from fractions import Fraction
from terms import *
import terms
import symex
from symex import SLOT, HALF, OMASK, PathEnd, CxxThrow, Exit, Unsupported, Bits

def install(ex):
    H = ex.handlers
    # ---------------------------------------------------------------- memory
    def op_new(n, *r):
        if isinstance(n, Node): n = ex.concretize(n)
        if n is UNDEF: ex.memerr("allocation of an uninitialised size")
        n = n & ((1 << 64) - 1)
        if n > (1 << 40): ex.throw_std("_ZTISt9bad_alloc")
        if n >= (1 << 31): raise Unsupported("huge allocation")
        return ex.alloc(n, "heap")
    def op_malloc(n):
        return op_new(n)
    def op_free(p, *r):
        if p == 0: return None
        if p is UNDEF: ex.memerr("release of an uninitialised pointer")
        o = ex.objs.get(p >> SLOT)
        if o is None or (p & OMASK) != HALF or o.kind != "heap": ex.memerr("release of a pointer that was not allocated")
        if o.freed: ex.memerr("double release")
        if ex.omp.me is not None: ex.omp.access("w", o.id, 0, max(o.size, 1))
        o.freed = True; o.cells = {}
        return None
    for n in ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"): H[n] = op_new
    H["malloc"] = op_malloc
    def op_calloc(a, b):
        p = op_new(ex.concretize(a) * ex.concretize(b)); ex.objs[p >> SLOT].fill = 0; return p
    H["calloc"] = op_calloc
    # random seeds: a fixed value (what is decided never depends on the random numbers themselves)
    H["_ZNSt13random_device9_M_getvalEv"] = lambda t: 12345
    for n in ("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13random_device7_M_finiEv"): H[n] = lambda *a: None
    def op_realloc(p, n):
        q = op_new(n)
        if p:
            o = ex.objs[p >> SLOT]; ex.memcpy(q, p, min(o.size, n)); op_free(p)
        return q
    H["realloc"] = op_realloc
    for n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t"): H[n] = op_free

    def h_memcpy(d, s, n, *r): ex.memcpy(d, s, n); return d
    def h_memset(d, b, n, *r): ex.memset(d, b, n); return d
    H["memcpy"] = H["memmove"] = h_memcpy; H["memset"] = h_memset
    def h_strlen(p): return len(ex.cstr(p))
    H["strlen"] = h_strlen
    def h_memcmp(a, b, n):
        n = ex.concretize(n)
        if n == 0: return 0
        oa, fa = ex.find(a, n, "read"); ob, fb = ex.find(b, n, "read")
        for i in range(n):
            x = ex.byte_at(oa, fa + i); y = ex.byte_at(ob, fb + i)
            if x is UNDEF or y is UNDEF: ex.memerr("comparison of uninitialised bytes")
            if x != y: return -1 if x < y else 1
        return 0
    H["memcmp"] = H["bcmp"] = h_memcmp
    def h_strcmp(a, b):
        x = ex.cstr(a); y = ex.cstr(b); return 0 if x == y else -1 if x < y else 1
    H["strcmp"] = h_strcmp
    def h_strncmp(a, b, n):
        x = ex.cstr(a)[:n]; y = ex.cstr(b)[:n]; return 0 if x == y else -1 if x < y else 1
    H["strncmp"] = h_strncmp
    H["getpid"] = lambda: 4711
    H["usleep"] = H["sleep"] = lambda *a: 0
    def h_strchr(p, c):
        b = ex.cstr(p).encode("latin1") + b"\0"; k = b.find(bytes([ex.concretize(c) & 255])); return p + k if k >= 0 else 0
    H["strchr"] = h_strchr
    def h_strstr(p, q):
        k = ex.cstr(p).find(ex.cstr(q)); return p + k if k >= 0 else 0
    H["strstr"] = h_strstr
    # list and tree nodes of libstdc++
    ld = lambda a: ex.concretize(ex.load(a, _PT))
    def st(a, v): ex.store(a, v, _PT)
    def l_hook(n, p):
        q = ld(p + 8); st(n, p); st(n + 8, q); st(q, n); st(p + 8, n)
    H["_ZNSt8__detail15_List_node_base7_M_hookEPS0_"] = l_hook
    def l_unhook(n):
        a = ld(n); b = ld(n + 8); st(b, a); st(a + 8, b)
    H["_ZNSt8__detail15_List_node_base9_M_unhookEv"] = l_unhook
    def l_transfer(p, f, l):
        if p == l: return
        lp, fp, pp = ld(l + 8), ld(f + 8), ld(p + 8); st(lp, p); st(fp, l); st(pp, f); st(p + 8, lp); st(l + 8, fp); st(f + 8, pp)
    H["_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_"] = l_transfer
    def t_insert(left, x, p, h):
        st(x + 8, p); st(x + 16, 0); st(x + 24, 0); ex.store(x, 1, _IT)
        if ex.concretize(left) & 1:
            st(p + 16, x)
            if p == h: st(h + 8, x); st(h + 24, x)
            elif p == ld(h + 16): st(h + 16, x)
        else:
            st(p + 24, x)
            if p == ld(h + 24): st(h + 24, x)
    H["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = t_insert
    def t_step(x, a, b):
        if a == 16 and ld(ld(x + 8) + 8) == x and ex.load(x, _IT) == 0: return ld(x + 24)   # header
        y = ld(x + b)
        if y:
            while ld(y + a): y = ld(y + a)
            return y
        y = ld(x + 8)
        while x == ld(y + b): x, y = y, ld(y + 8)
        return x if b == 24 and ld(x + 24) == y else y
    for n in ("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"): H[n] = lambda x: t_step(x, 16, 24)
    for n in ("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"): H[n] = lambda x: t_step(x, 24, 16)
    def h_strcpy(d, s):
        ex.write_bytes(d, ex.cstr(s).encode("latin1") + b"\0"); return d
    H["strcpy"] = h_strcpy
    def h_strncpy(d, s, n):
        b = ex.cstr(s).encode("latin1")[:n]; ex.write_bytes(d, b + b"\0" * (n - len(b))); return d
    H["strncpy"] = h_strncpy
    def h_memchr(p, c, n):
        n = ex.concretize(n)
        if n == 0: return 0
        o, off = ex.find(p, n, "read")
        for i in range(n):
            if ex.byte_at(o, off + i) == (c & 255): return p + i
        return 0
    H["memchr"] = h_memchr
    def fmt(f, args):
        args = list(args); out = ""; i = 0
        for m in re.finditer(r"%(%|([-+ 0#]*)(\*|\d+)?(\.\*|\.\d+)?(hh|h|ll|l|z|j|L)?([diuxXcsfeEgGp]))|[^%]+|%", f):
            t = m.group(0)
            if t == "%%": out += "%"; continue
            if t[0] != "%" or t == "%": out += t; continue
            fl = m.group(2) or ""; wd = m.group(3) or ""; pr = m.group(4) or ""
            if wd == "*": wd = str(args.pop(0))
            if pr == ".*": pr = "." + str(args.pop(0))
            c = m.group(6); v = args.pop(0) if args else 0
            if c == "s": v = ex.cstr(v)
            elif c in "diuxXc":
                v = ex.concretize(v)
                if c == "u": v &= (1 << 64) - 1 if m.group(5) in ("l", "ll", "z") else (1 << 32) - 1; c = "d"
                if c == "i": c = "d"
            elif c == "p": c = "x"
            else:
                try: v = float(ex.ev(v)) if isinstance(v, Node) else symex.todouble(v)
                except Exception: v = 0.0
            out += ("%" + fl + wd + pr + c) % v
        return out
    def h_snprintf(d, n, f, *a):
        s = fmt(ex.cstr(f), a).encode("latin1")
        n = ex.concretize(n)
        if n: ex.write_bytes(d, s[:n - 1] + b"\0")
        return len(s)
    H["snprintf"] = h_snprintf
    def h_sprintf(d, f, *a):
        s = fmt(ex.cstr(f), a).encode("latin1"); ex.write_bytes(d, s + b"\0"); return len(s)
    H["sprintf"] = h_sprintf
    for n in ("printf", "puts", "putchar", "fflush", "fprintf", "fputs", "fputc", "fwrite", "usleep", "sleep", "fclose", "perror", "fputc"): H[n] = lambda *a: 0
    H["time"] = lambda *a: 0
    H["getenv"] = lambda *a: 0
    # the clock stands still: what only happens after minutes of run time (progress output) is outside of the claims
    def h_clock(i):
        def h(*a):
            if a[i]: ex.write_bytes(a[i], (1000000000).to_bytes(8, "little") + bytes(8))
            return 0
        return h
    H["clock_gettime"] = h_clock(1); H["gettimeofday"] = H["ftime"] = h_clock(0)
    H["_ZNSt6chrono3_V212system_clock3nowEv"] = lambda *a: 0
    H["_ZNSt6chrono3_V212steady_clock3nowEv"] = lambda *a: 0
    def h_exit(c):
        ex.exit_code = c
        raise PathEnd("exit", "exit(%s)" % c)
    H["exit"] = H["_exit"] = h_exit
    def h_abort(*a): ex.memerr("abort")
    H["abort"] = H["_ZSt9terminatev"] = H["__assert_fail"] = H["__cxa_pure_virtual"] = H["__clang_call_terminate"] = h_abort

    # ---------------------------------------------------------------- exceptions
    def throw_std(ti):
        if ti not in ex.gaddr:
            ex.gaddr[ti] = ex.alloc(64, "global", ti)
        p = ex.alloc(64, "heap"); ex.objs[p >> SLOT].fill = 0
        raise CxxThrow(p, ex.gaddr[ti])
    ex.throw_std = throw_std
    for n, ti in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"), ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
                  ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"), ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
                  ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"),
                  ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"), ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt9bad_alloc"), ("__cxa_throw_bad_array_new_length", "_ZTISt9bad_alloc"),
                  ("_ZSt25__throw_bad_function_callv", "_ZTISt9exception"), ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"), ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast")):
        H[n] = (lambda ti: lambda *a: throw_std(ti))(ti)
    def h_allocexc(n):
        p = ex.alloc(max(n, 1), "heap"); ex.objs[p >> SLOT].fill = 0; return p
    H["__cxa_allocate_exception"] = h_allocexc
    H["__cxa_free_exception"] = lambda p: None
    def h_throw(obj, ti, dtor): raise CxxThrow(obj, ti)
    H["__cxa_throw"] = h_throw
    def h_begin(p):
        ex.exc_current.append(p); return p
    H["__cxa_begin_catch"] = h_begin
    def h_end():
        if ex.exc_current: ex.exc_current.pop()
    H["__cxa_end_catch"] = h_end
    def h_rethrow():
        p = ex.exc_current[-1]; raise CxxThrow(p, ex.exc_obj[p].ti)
    H["__cxa_rethrow"] = h_rethrow
    for n in ("llvm.va_start", "llvm.va_start.p0"): H[n] = lambda ap: ex.va_start(ap)
    for n in ("llvm.va_end", "llvm.va_end.p0"): H[n] = lambda ap: None
    H["llvm.eh.typeid.for.p0"] = H["llvm.eh.typeid.for"] = lambda ti: ex.tid(ti)
    def h_guard(p):
        ex.store_byte(p, 1); return 1
    ex.store_byte = lambda p, v: ex.write_bytes(p, bytes([v]))
    H["__cxa_guard_acquire"] = h_guard
    H["__cxa_guard_release"] = H["__cxa_guard_abort"] = lambda p: None
    H["__cxa_atexit"] = lambda *a: 0
    def h_dyncast(src, sti, dti, hint):
        if src == 0: return 0
        PT = ex.ptr_ty()
        vp = ex.load(src, PT)
        off = ex.load(vp - 16, PT); ti = ex.load(vp - 8, PT)
        base = src + off
        r = []
        def walk(t, a, d=0):
            if ex.same_ti(t, dti): r.append(a); return
            for b, o in ex.bases(t): walk(b, a + o, d + 1)
        walk(ti, base)
        return r[0] if r else 0
    H["__dynamic_cast"] = h_dyncast
    def same_ti(a, b):
        if a == b: return True
        x = ex.objs.get(a >> SLOT); y = ex.objs.get(b >> SLOT)
        return bool(x and y and x.name and x.name == y.name)
    ex.same_ti = same_ti
    class _PT: kind = "pointer"; store = 8; size = 8; width = 0
    ex.ptr_ty = lambda: _PT
    class _DT: kind = "double"; store = 8; size = 8; width = 0
    class _IT: kind = "int"; store = 4; size = 4; width = 32
    class _I64: kind = "int"; store = 8; size = 8; width = 64
    class _I8: kind = "int"; store = 1; size = 1; width = 8
    ex.DT = _DT; ex.IT = _IT; ex.I64 = _I64; ex.I8 = _I8

    # ---------------------------------------------------------------- floating point
    def un(f): return lambda a, *r: f(a)
    def vec1(f):
        def g(a, *r): return [f(x) for x in a] if isinstance(a, list) else f(a)
        return g
    def vec2(f):
        def g(a, b, *r): return [f(x, y) for x, y in zip(a, b)] if isinstance(a, list) else f(a, b)
        return g
    C = "llvm.experimental.constrained."
    ex.fpmap = {
        "fadd": vec2(lambda a, b: ex.rnd(radd(a, b), a, b) if ex.rounding else ex.fsum(radd(a, b))), "fsub": vec2(lambda a, b: ex.rnd(rsub(a, b), a, b) if ex.rounding else ex.fsum(rsub(a, b))), "fmul": vec2(lambda a, b: ex.rnd(rmul(a, b), a, b, True)), "fdiv": vec2(lambda a, b: ex.rnd(ex.fdiv(a, b), a, b, True)), "frem": vec2(lambda a, b: ex.fbin("frem", a, b)),
        "fmuladd": lambda a, b, c, *r: [ex.fsum(radd(rmul(x, y), z)) for x, y, z in zip(a, b, c)] if isinstance(a, list) else ex.fsum(radd(rmul(a, b), c)),
        "sqrt": vec1(lambda a: ex.fsqrt(a)), "fpext": un(lambda a: a), "fptrunc": un(lambda a: a),
        "pow": vec2(lambda a, b: ex.rpow(a, b)), "powi": vec2(lambda a, b: ex.rpow(a, b)),
        "floor": vec1(lambda a: ex.ffloor(a)), "ceil": vec1(lambda a: rneg(ex.ffloor(rneg(a)))), "round": vec1(lambda a: ex.fround(a)),
        "trunc": vec1(lambda a: ftrunc(a)), "rint": vec1(lambda a: frint(a)), "nearbyint": vec1(lambda a: frint(a)),
        "fabs": vec1(lambda a: ex.fabs(a) if a is not UNDEF else a),
        "maxnum": vec2(lambda a, b: fmaxmin(a, b, True)), "minnum": vec2(lambda a, b: fmaxmin(a, b, False)), "copysign": vec2(lambda a, b: copysign(a, b)),
    }
    ex.fpmap["fma"] = ex.fpmap["fmuladd"]
    for f in ("sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "asin", "acos", "atan", "log10", "log2", "exp2", "erf", "cbrt"):
        ex.fpmap[f] = vec1((lambda f: lambda a: fnl(f, a))(f))
    def fnl(f, a):
        if a is UNDEF: return UNDEF
        if special(a): return NAN
        if f == "atan" and isnum(a): return from_double(math.atan(a))
        if f == "log":
            if isnum(a): return from_double(math.log(a)) if a > 0 else NAN
        if f == "exp2": return ex.rpow(2, a)
        return rfn(f, a)
    def frint(a):
        if a is UNDEF or special(a): return a
        if isnum(a): return round(a)
        return toreal(ifloor(radd(a, Fraction(1, 2))))          # ties away from even: noted
    def ftrunc(a):
        if a is UNDEF or special(a): return a
        if isnum(a): return math.trunc(a)
        if ex.decide(cmp("lt", a, 0)): return rneg(toreal(ifloor(rneg(a))))
        return toreal(ifloor(a))
    def fmaxmin(a, b, mx):
        if a is NAN: return b
        if b is NAN: return a
        if a is UNDEF or b is UNDEF: return UNDEF
        lt = ex.decide(terms.fcmp("olt", a, b))
        return (b if lt else a) if mx else (a if lt else b)
    def copysign(a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        m = ex.fabs(a)
        return rneg(m) if ex.decide(terms.fcmp("olt", b, 0)) else m
    for k, f in ex.fpmap.items():
        H[k] = f
    H["fmax"] = ex.fpmap["maxnum"]; H["fmin"] = ex.fpmap["minnum"]
    H["fmod"] = lambda a, b: fmod(a, b)
    def logl(a):
        if isnum(a) and a > 0 and a.denominator == 1 and int(a) & (int(a) - 1) == 0: return from_double(math.log(2.0)) * (int(a).bit_length() - 1)
        return fnl("log", a)
    H["logl"] = logl
    H["hypot"] = lambda a, b: ex.fsqrt(radd(rmul(a, a), rmul(b, b)))
    H["atan2"] = lambda a, b: UNDEF if (a is UNDEF or b is UNDEF) else (from_double(math.atan2(a, b)) if isnum(a) and isnum(b) and not special(a) and not special(b) else rfn("atan2", a, b))
    H["lround"] = H["llround"] = lambda a: ex.ftrunc_int(ex.fround(a), 64)
    H["lrint"] = lambda a: ex.ftrunc_int(frint(a), 64)
    def fmod(a, b):
        if special(a) or special(b): return NAN
        q = ftrunc(ex.fdiv(a, b)); return rsub(a, rmul(q, b))
    def h_modf(a, p):
        t = ftrunc(a); ex.store(p, t, _DT); return rsub(a, t)
    H["modf"] = h_modf
    def h_sincos(a, s, c):
        ex.store(s, fnl("sin", a), _DT); ex.store(c, fnl("cos", a), _DT)
    H["sincos"] = h_sincos
    # complex
    H["__muldc3"] = lambda a, b, c, d: [rsub(rmul(a, c), rmul(b, d)), radd(rmul(a, d), rmul(b, c))]
    def divdc3(a, b, c, d):
        n = radd(rmul(c, c), rmul(d, d))
        return [ex.fdiv(radd(rmul(a, c), rmul(b, d)), n), ex.fdiv(rsub(rmul(b, c), rmul(a, d)), n)]
    H["__divdc3"] = divdc3
    def cexp(a, b):
        e = fnl("exp", a); return [rmul(e, fnl("cos", b)), rmul(e, fnl("sin", b))]
    H["cexp"] = cexp
    H["cabs"] = lambda a, b: ex.fsqrt(radd(rmul(a, a), rmul(b, b)))
    H["carg"] = lambda a, b: rfn("atan2", b, a)
    def csqrt(a, b):
        m = ex.fsqrt(radd(rmul(a, a), rmul(b, b)))
        x = ex.fsqrt(rmul(Fraction(1, 2), radd(m, a))); y = ex.fsqrt(rmul(Fraction(1, 2), rsub(m, a)))
        if ex.decide(terms.fcmp("olt", b, 0)): y = rneg(y)
        return [x, y]
    H["csqrt"] = csqrt
    def cpow(a, b, c, d):
        if d == 0 and isnum(c) and Fraction(c).denominator == 1 and abs(c) <= 8:
            n = int(c); x, y = 1, 0
            for _ in range(abs(n)): x, y = rsub(rmul(x, a), rmul(y, b)), radd(rmul(x, b), rmul(y, a))
            return [x, y] if n >= 0 else divdc3(1, 0, x, y)
        raise Unsupported("complex power")
    H["cpow"] = cpow
    def h_isfpclass(a, mask):
        if a is UNDEF: return UNDEF
        r = False
        if a is NAN: r = bool(mask & 3)
        elif a is INF: r = bool(mask & 0x200)
        elif a is NINF: r = bool(mask & 4)
        elif isnum(a):
            r = bool(mask & (0x60 if a == 0 else 0x180 if a > 0 else 0x18))
        else:
            fin = 0x8 | 0x20 | 0x40 | 0x100
            if mask & fin == fin: r = True
            elif mask & fin == 0: r = False
            else: raise Unsupported("is.fpclass mask %x" % mask)
        return r

    # ---------------------------------------------------------------- integer intrinsics
    def iminmax(kind):
        def g(a, b):
            if isinstance(a, list): return [g(x, y) for x, y in zip(a, b)]
            w = ex.cur_ty.width
            lt = ex.decide(ex.icmp("slt" if kind[0] == "s" else "ult", a, b, w))
            return (a if lt else b) if kind.endswith("min") else (b if lt else a)
        return g
    ex.intmap = {k: iminmax(k) for k in ("smin", "smax", "umin", "umax")}
    def iabs(a, *r):
        if isinstance(a, Node): return imul(-1, a) if ex.decide(cmp("lt", a, 0)) else a
        return abs(a)
    ex.intmap["abs"] = iabs
    H["abs"] = H["labs"] = iabs
    def ovf(op, signed):
        def g(a, b):
            w = ex.cur_ty.elems[0].width
            if not signed: a = ex.uns(a, w); b = ex.uns(b, w)
            v = iadd(a, b) if op == "add" else isub(a, b) if op == "sub" else imul(a, b)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            bad = bor(cmp("lt", v, lo), cmp("lt", hi, v))
            o = ex.decide(bad) if isinstance(bad, Node) else bad
            return [ex.wrap(v, w), o]
        return g
    for op in ("add", "sub", "mul"):
        ex.intmap[("s" + op) + ".with.overflow"] = ovf(op, True); ex.intmap["u" + op + ".with.overflow"] = ovf(op, False)
    def ctz(a, *r):
        a = ex.concretize(a); w = ex.cur_ty.width
        return w if a == 0 else ((a & -a).bit_length() - 1)
    def ctlz(a, *r):
        a = ex.concretize(a); w = ex.cur_ty.width; return w - (a & ((1 << w) - 1)).bit_length()
    ex.intmap["cttz"] = ctz; ex.intmap["ctlz"] = ctlz
    def fsh(left):
        def g(a, b, c):
            w = ex.cur_ty.width; M = (1 << w) - 1
            a = ex.concretize(a) & M; b = ex.concretize(b) & M; c = ex.concretize(c) % w
            v = ((a << w | b) << c >> w) if left else ((a << w | b) >> c)
            return ex.wrap(v & M, w)
        return g
    ex.intmap["fshl"] = fsh(True); ex.intmap["fshr"] = fsh(False)
    def bswap(a):
        a = ex.concretize(a); n = ex.cur_ty.width // 8
        return int.from_bytes((a & ((1 << 8 * n) - 1)).to_bytes(n, "little"), "big", signed=True)
    ex.intmap["bswap"] = bswap
    ex.intmap["ctpop"] = lambda a: bin(ex.concretize(a) & ((1 << ex.cur_ty.width) - 1)).count("1")
    def sat(op):
        def g(a, b):
            w = ex.cur_ty.width
            a = ex.uns(a, w); b = ex.uns(b, w)
            if op == "usub": 
                if ex.decide(ex.icmp("slt", a, b, 128)): return 0
                return ex.wrap(isub(a, b), w)
            raise Unsupported("saturating add")
        return g
    ex.intmap["usub.sat"] = sat("usub")

    # ---------------------------------------------------------------- harness interface
    def h_real(name, lo, hi):
        n = ex.new_var(ex.cstr(name), "R", lo, hi); ex.realvars = True
        return rvar(n)
    H["vf_real"] = h_real
    def h_int(name, lo, hi):
        lo = ex.concretize(lo); hi = ex.concretize(hi)
        n = ex.new_var(ex.cstr(name), "I", lo, hi)
        if lo == hi: return lo
        return ivar(n, lo, hi)
    H["vf_int"] = h_int
    def h_choice(name, lo, hi):
        lo = ex.concretize(lo); hi = ex.concretize(hi)
        n = ex.new_var(ex.cstr(name), "I", lo, hi)
        if lo == hi: ex.asg[n] = lo; return lo
        return ex.choose(n, lo, hi)
    H["vf_choice"] = h_choice
    def h_patch(p, size, frm, to, n):
        "every stored integer equal to from[k] becomes to[k]"
        o, off = ex.find(p, size, "read"); cnt = 0
        f = [ex.load(frm + 4 * k, _IT) for k in range(n)]; t = [ex.load(to + 4 * k, _IT) for k in range(n)]
        for a, c in list(o.cells.items()):
            if off <= a < off + size and c[0] in (4, 8) and c[1] != "f" and isinstance(c[2], int) and not isinstance(c[2], bool) and c[2] in f:
                o.cells[a] = (c[0], c[1], t[f.index(c[2])]); cnt += 1
        return cnt
    H["vf_patch"] = h_patch
    def h_assume(c):
        if isinstance(c, Node) and c.sort == "I": c = bnot(cmp("eq", c, 0))
        elif not isinstance(c, (bool, Node)) and c is not UNDEF: c = bool(c & 1)
        ex.assume(c)
    H["vf_assume_b"] = h_assume
    def h_check(id, c):
        if not isinstance(c, (bool, Node)) and c is not UNDEF: c = bool(c & 1)
        ex.check(ex.cstr(id), c)
    H["vf_check_b"] = h_check
    def h_check_eq(id, a, b, scale): ex.check_eq(ex.cstr(id), a, b)
    H["vf_check_eq"] = h_check_eq
    def h_near(id, a, b, s, t):
        "a generous tolerance is part of the statement, a small one only allows for the rounding of the replay"
        if isnum(t) and t >= Fraction(1, 10000) and s is not UNDEF: h_tol(id, a, b, rmul(t, s))
        else: ex.check_eq(ex.cstr(id), a, b)
    H["vf_check_near"] = h_near
    def h_check_int(id, a, b):
        if a is UNDEF or b is UNDEF: ex.check(ex.cstr(id), UNDEF)
        else: ex.check(ex.cstr(id), cmp("eq", a, b))
    H["vf_check_int"] = h_check_int
    def h_lt(id, a, b, scale): ex.check(ex.cstr(id), terms.fcmp("ole", a, b))
    H["vf_check_le"] = h_lt
    def h_tol(id, a, b, t):
        d = rsub(a, b)
        ex.check(ex.cstr(id), terms.band(terms.fcmp("ole", d, t), terms.fcmp("ole", rneg(d), t)))
    H["vf_check_tol"] = h_tol
    def h_round(bits): terms.ROUND = bits
    H["vf_round"] = h_round
    def h_rounding(on):
        ex.rounding = 1 if on else 0; ex.rounding_linear = on == 2
    H["vf_rounding"] = h_rounding
    def h_fn(name, n, p):
        n = ex.concretize(n)
        return rfn("u:" + ex.cstr(name), *[ex.load(p + 8 * i, _DT) for i in range(n)])
    H["vf_fn"] = h_fn
    H["vf_reach"] = lambda id: ex.reached.add(ex.cstr(id))
    def h_obs(name, v): ex.obs.append((ex.cstr(name), v))
    H["vf_observe"] = h_obs
    H["vf_observe_i"] = h_obs
    H["vf_symbolic"] = lambda: 1
    def h_note(s): ex.notes.add(ex.cstr(s))
    H["vf_note"] = h_note
    def h_diff(v, x):
        # derivative of the term v by the input x
        if not isinstance(v, Node): return 0
        return diff(v, x)
    H["vf_diff"] = h_diff
    def h_fail(id): ex.check(ex.cstr(id), False)
    H["vf_fail"] = h_fail
    def h_end(): raise Exit()
    H["vf_end"] = h_end
    def h_decide(c):
        if not isinstance(c, (bool, Node)) and c is not UNDEF: c = bool(c & 1)
        return 1 if ex.decide(c) else 0
    H["vf_decide"] = h_decide
    import omprt; omprt.install(ex)

    # ---------------------------------------------------------------- C++ streams: no observable effect here
    def ret0(*a): return a[0] if a else 0
    def ret_void(*a): return None
    def empty_string(sret, *a):
        ex.store(sret, sret + 16, _PT); ex.store(sret + 8, 0, _I64); ex.store(sret + 16, 0, _I8)
    pats = [
        (r"_ZNK?St7__cxx1118?1?9?basic_(o|i)?stringstreamI.*3strEv$", empty_string),
        (r"_ZNKSt7__cxx11\d+basic_(o|i)?stringstreamI.*3strEv$", empty_string),
        (r"_ZNKSt7__cxx1115basic_stringbufI.*3strEv$", empty_string),
        (r"_ZNSt8ios_base4InitC[12]Ev$", ret_void), (r"_ZNSt8ios_base4InitD[12]Ev$", ret_void),
        (r"_ZNSt6locale", ret_void), (r"_ZNKSt6locale", ret0),
        (r"_ZNK?St(7__cxx11)?\d+basic_(o|i)?f?stream.*7is_openEv$", lambda *a: True),
        (r"_ZNKSt9basic_iosI.*(4fail|3bad|3eof)Ev$", lambda *a: False),
        (r"_ZNKSt9basic_iosI.*ntEv$", lambda *a: False),
        (r"_ZNKSt9basic_iosI.*cvbEv$", lambda *a: True),
        (r"_ZNKSt9basic_iosI.*4goodEv$", lambda *a: True),
        (r"_ZNSt7__cxx11\d+basic_(o|i)?stringstream.*[CD]\dE", ret_void),
        (r"_ZNSt\d+basic_(o|i)?fstream.*[CD]\dE", ret_void),
        (r"_ZNSt\d+basic_(o|i)?fstreamI.*(4open|5close)E", ret_void),
        (r"_ZNSo", ret0), (r"_ZNSi", ret0), (r"_ZNSt13basic_ostreamI", ret0), (r"_ZNSt12basic_istreamI", ret0),
        (r"_ZStls", ret0), (r"_ZStrs", ret0), (r"_ZSt4endl", ret0), (r"_ZSt5flush", ret0), (r"_ZSt16__ostream_insert", ret0),
        (r"_ZNSt8ios_base", ret0), (r"_ZNKSt8ios_base", ret0), (r"_ZNSt9basic_iosI", ret0), (r"_ZNKSt9basic_iosI", ret0),
        (r"_ZSt(12setprecision|4setw)", lambda *a: 0), (r"_ZSt(5fixed|10scientific|4left|5right|7setfill|7showpos)", ret0),
        (r"_ZStlsI", ret0), (r"_ZSt7getline", ret0),
        (r"llvm\.threadlocal\.address", lambda p: ex.tls(p)), (r"llvm\.lifetime\.", ret_void), (r"llvm\.invariant\.", lambda *a: 0), (r"llvm\.assume", ret_void), (r"llvm\.dbg\.", ret_void),
        (r"llvm\.experimental\.noalias", ret_void), (r"llvm\.donothing", ret_void), (r"llvm\.prefetch", ret_void), (r"llvm\.va_(start|end)", ret_void),
        (r"llvm\.stacksave", lambda *a: 0), (r"llvm\.stackrestore", ret_void),
        (r"llvm\.mem(cpy|move)\.", h_memcpy), (r"llvm\.memset\.", h_memset),
        (r"llvm\.expect", lambda a, *r: a), (r"llvm\.is\.constant", lambda a: False), (r"llvm\.is\.fpclass", h_isfpclass),
        (r"llvm\.objectsize", lambda *a: -1), (r"llvm\.launder", lambda a: a), (r"llvm\.strip", lambda a: a), (r"llvm\.trap", h_abort), (r"llvm\.ubsantrap", h_abort),
        (r"_ZNSt15__exception_ptr", ret_void),
    ]
    ex.patterns = [(re.compile(p), f) for p, f in pats]
    stdexc = re.compile(r"_ZN(K?)St(\d+)(\w+?)([CD])([0-2])E")
    names = {"runtime_error", "logic_error", "out_of_range", "invalid_argument", "length_error", "exception", "bad_alloc", "range_error", "domain_error"}

    def find_handler(F):
        n = F.name
        if n.startswith(C):
            k = n[len(C):].split(".")[0]
            if k in ("fcmp", "fcmps"):
                def fc(a, b, *r):
                    p = ex.cur_pred
                    if isinstance(a, list): return [terms.fcmp(p, x, y) for x, y in zip(a, b)]
                    return terms.fcmp(p, a, b)
                return fc
            if k in ("sitofp", "uitofp"):
                def cv(a, *r):
                    t = ex.cur_argtys[0]
                    if isinstance(a, list): return [ex.cast(k, x, t.elem, None) for x in a]
                    return ex.cast(k, a, t, None)
                return cv
            if k in ("fptosi", "fptoui"):
                def cv(a, *r):
                    t = ex.cur_ty
                    if isinstance(a, list): return [ex.cast(k, x, None, t.elem) for x in a]
                    return ex.cast(k, a, None, t)
                return cv
            if k in ("lround", "llround"): return H["lround"]
            f = ex.fpmap.get(k)
            if f is None: raise Unsupported(n)
            return f
        if n.startswith("llvm."):
            k = n[5:]
            for key in (k.split(".")[0], ".".join(k.split(".")[:3]), ".".join(k.split(".")[:2])):
                if key in ex.intmap: return ex.intmap[key]
                if key in ex.fpmap: return ex.fpmap[key]
        for p, f in ex.patterns:
            if p.match(n): return f
        m = stdexc.match(n)
        if m and m.group(3) in names and F.decl: return lambda *a: None
        if n.startswith("vf_u_"): pass
        return None
    ex.find_handler = find_handler
    ex.h = H
