"""Path-exploring symbolic executor for LLVM IR.  One call of Executor.run(prefix) executes the harness
once, following the decisions in `prefix` and asking the SMT solver at every further symbolic branch."""
import re, sys, struct, time, random, math
from fractions import Fraction
import llvmir
from llvmir import Module
from terms import *
import terms, smt
import algebra as alg

SLOT = 32; HALF = 1 << 31; OMASK = (1 << 32) - 1

class PathEnd(Exception):
    def __init__(self, kind, msg=""): self.kind = kind; self.msg = msg
class CxxThrow(Exception):
    def __init__(self, obj, ti): self.obj = obj; self.ti = ti
class Exit(Exception): pass
class Unsupported(Exception): pass

class Bits:
    "the 64 bit pattern of a symbolic double moved through an integer register"
    __slots__ = ("v",)
    def __init__(self, v): self.v = v

class Obj:
    __slots__ = ("id", "size", "cells", "kind", "freed", "base", "fill", "name", "const")
    def __init__(self, id, size, kind, name=""):
        self.id = id; self.size = size; self.cells = {}; self.kind = kind; self.freed = False; self.base = None; self.fill = None; self.name = name; self.const = False

def bits_of(d):
    return struct.unpack("<q", struct.pack("<d", d))[0]
def todouble(v):
    if v is NAN: return math.nan
    if v is INF: return math.inf
    if v is NINF: return -math.inf
    return float(v)

class Program:
    """a linked module plus symbol tables shared by all paths of a harness"""
    def __init__(self, path):
        self.m = Module(path)
        self.faddr = {}; self.fbyaddr = {}
        for i, n in enumerate(self.m.funcs):
            a = ((1 << 20) + i) << SLOT
            self.faddr[n] = a; self.fbyaddr[a] = self.m.funcs[n]
        self.compiled = {}
        self.ginit = None

_FSUM = {}
_REBUILD = dict(add=radd, mul=rmul, div=rdiv, sqrt=rsqrt, toreal=toreal, iadd=iadd, imul=imul, floor=ifloor, fn=rfn)
class Executor:
    def __init__(self, prog, entry, seed=1, max_steps=4000000, qtimeout=4000, hints=None, overrides=None, par=False):
        self.prog = prog; self.m = prog.m; self.entry = entry
        self.max_steps = max_steps; self.qtimeout = qtimeout
        self.seed = seed
        self.stats = smt.Stats()
        self.funcs_seen = set()
        self.unsat_cache = {}
        self.glob_unsat = set(); self.never_unknown = {}
        self.handlers = {}
        self.par_enabled = par
        import builtins_vf
        builtins_vf.install(self)
        self.overrides = overrides or {}
        self.decide_timeout = qtimeout

    # ------------------------------------------------------------------------------- path state
    def run(self, prefix, asg):
        self.prefix = prefix; self.trace = []; self.pc = []; self.known = {}
        self.asg = dict(asg or {}); self.have_witness = asg is not None
        self.eqs = {}; self.submemo = {}; terms.ROUND = 0; self.rounding = 0; self.rounding_linear = False
        self.evalr = None
        smt.COMPLETE = self.complete
        self.objs = {}; self.nextid = 1
        self.steps = 0
        self.spawn = []
        self.results = []          # check outcomes on this path
        self.obs = []              # observed values
        self.vars = {}             # name -> (kind, lo, hi)
        self.notes = set()
        self.assumed = []          # conditions assumed because the solver gave no answer
        self.rng = random.Random(self.seed)
        self.exc_current = []
        self.reached = set()
        self.tids = {}
        self.gaddr = {}
        self.threads = None
        self.depth = 0; self.vastack = []
        self.lasterr = None
        self.signmemo = {}; self.signmemo_n = -1; self.signmemo_kn = None
        self.atomic = None; self.omp.reset()
        status = "done"; msg = ""
        try:
            self.init_globals()
            for f in self.ctors:
                self.call_name(f, [])
            self.call_name(self.entry, [])
        except PathEnd as e:
            status = e.kind; msg = e.msg
        except Exit: pass
        except CxxThrow as e:
            status = "uncaught"; msg = "uncaught C++ exception"
        except Unsupported as e:
            status = "unsupported"; msg = str(e)
        except RecursionError as e:
            status = "unsupported"; msg = "recursion limit"
        except alg.TooBig:
            status = "unsupported"; msg = "term too big"
        return status, msg

    # ------------------------------------------------------------------------------- memory
    def alloc(self, size, kind, name=""):
        i = self.nextid; self.nextid += 1
        o = Obj(i, size, kind, name); self.objs[i] = o
        return (i << SLOT) + HALF
    def find(self, addr, size, what):
        if isinstance(addr, Node): addr = self.concretize(addr)
        if addr is UNDEF: self.memerr("use of an uninitialised pointer")
        if isinstance(addr, Bits): self.memerr("double used as pointer")
        o = self.objs.get(addr >> SLOT)
        off = (addr & OMASK) - HALF
        if o is None:
            self.memerr("%s through invalid pointer" % what if addr >= 4096 or addr < 0 else "%s through null pointer" % what)
        if o.freed: self.memerr("%s of freed memory" % what)
        if off < 0 or off + size > o.size:
            self.memerr("%s out of bounds (offset %d size %d of %s object of %d bytes)" % (what, off, size, o.kind, o.size))
        if self.omp.me is not None: self.omp.access("a" + what[0] if self.atomic else what[0], o.id, off, size)
        return o, off
    def memerr(self, msg):
        self.results.append(("memory:" + msg, "fail", "memory"))
        raise PathEnd("memerr", msg)

    def overlapping(self, o, off, size):
        r = []
        c = o.cells
        for k in range(off - 15, off + size):
            x = c.get(k)
            if x is not None and k + x[0] > off: r.append(k)
        return r

    def load(self, addr, ty):
        k = ty.kind
        size = ty.store
        o, off = self.find(addr, size, "read")
        return self.load_at(o, off, ty)

    def load_at(self, o, off, ty):
        k = ty.kind
        if k == "struct":
            return [self.load_at(o, off + ty.offs[i], e) for i, e in enumerate(ty.elems)]
        if k in ("array", "vector"):
            return [self.load_at(o, off + i * ty.elem.size, ty.elem) for i in range(ty.n)]
        size = ty.store
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            tag, v = c[1], c[2]
            if k == "double":
                if tag == "f": return v
                if isinstance(v, Bits): return v.v
                if v is UNDEF: return UNDEF
                if isinstance(v, Node): raise Unsupported("symbolic integer reinterpreted as double")
                return 0 if v == 0 else from_double(struct.unpack("<d", struct.pack("<q", v))[0])
            if tag == "f":
                if k == "float": return v
                if v is UNDEF: return UNDEF
                if isinstance(v, Node): return Bits(v)
                return bits_of(todouble(v))
            if k == "int" and ty.width == 1:
                return v if isinstance(v, bool) or isinstance(v, Node) or v is UNDEF else bool(v & 1)
            return v
        ov = self.overlapping(o, off, size)
        if not ov:
            if o.base is not None and off < len(o.base):
                b = o.base[off:off + size]
                return self.from_bytes(b, ty)
            if o.fill is not None:
                return self.from_bytes(bytes([o.fill]) * size, ty)
            return UNDEF
        # assemble from bytes
        bs = []
        for i in range(off, off + size):
            b = self.byte_at(o, i)
            if b is UNDEF: return UNDEF
            bs.append(b)
        return self.from_bytes(bytes(bs), ty)

    def byte_at(self, o, i):
        for k in range(i, i - 16, -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[0] > i:
                    return self.cell_bytes(c)[i - k] if c[2] is not UNDEF else UNDEF
                break
        else:
            pass
        # a shorter cell may hide a longer one only if they overlap, which stores prevent
        for k in range(i - 1, i - 16, -1):
            c = o.cells.get(k)
            if c is not None and k + c[0] > i:
                return self.cell_bytes(c)[i - k] if c[2] is not UNDEF else UNDEF
        if o.base is not None and i < len(o.base): return o.base[i]
        if o.fill is not None: return o.fill
        return UNDEF

    def cell_bytes(self, c):
        size, tag, v = c
        if isinstance(v, Node) or isinstance(v, Bits):
            if isinstance(v, Node) and v.sort == "I":
                v = self.concretize(v)
            else: raise Unsupported("partial access to a symbolic double")
        if tag == "f":
            return struct.pack("<d" if size == 8 else "<f", todouble(v))
        if isinstance(v, bool): v = int(v)
        return (v & ((1 << (8 * size)) - 1)).to_bytes(size, "little")

    def from_bytes(self, b, ty):
        if ty.kind == "double": return from_double(struct.unpack("<d", b)[0])
        if ty.kind == "float": return from_double(struct.unpack("<f", b)[0])
        v = int.from_bytes(b, "little", signed=True)
        if ty.kind == "int":
            if ty.width == 1: return bool(v & 1)
            if ty.width < 8 * len(b): 
                v &= (1 << ty.width) - 1
                if v >= 1 << (ty.width - 1): v -= 1 << ty.width
        return v

    def store(self, addr, v, ty):
        size = ty.store
        o, off = self.find(addr, size, "write")
        if o.const: self.memerr("write to constant")
        self.store_at(o, off, v, ty)

    def store_at(self, o, off, v, ty):
        k = ty.kind
        if k == "struct":
            for i, e in enumerate(ty.elems): self.store_at(o, off + ty.offs[i], v[i] if v is not UNDEF else UNDEF, e)
            return
        if k in ("array", "vector"):
            for i in range(ty.n): self.store_at(o, off + i * ty.elem.size, v[i] if v is not UNDEF else UNDEF, ty.elem)
            return
        size = ty.store
        if k == "double" or k == "float": cell = (size, "f", v)
        elif isinstance(v, Bits): cell = (size, "f", v.v)
        else: cell = (size, "i", v)
        self.put(o, off, cell)

    def put(self, o, off, cell):
        cells = o.cells
        c = cells.get(off)
        size = cell[0]
        if c is not None and c[0] == size:
            cells[off] = cell; return
        for k in self.overlapping(o, off, size):
            c = cells.pop(k)
            if k < off or k + c[0] > off + size:
                # partial overwrite: split the rest into bytes
                if c[2] is UNDEF: continue
                b = self.cell_bytes(c)
                for i in range(c[0]):
                    if k + i < off or k + i >= off + size:
                        x = b[i]; cells[k + i] = (1, "i", x if x < 128 else x - 256)
        cells[off] = cell

    def memcpy(self, dst, src, n):
        if isinstance(n, Node): n = self.concretize(n)
        if n == 0: return
        if n is UNDEF: self.memerr("copy of uninitialised length")
        so, soff = self.find(src, n, "read"); do, doff = self.find(dst, n, "write")
        items = []
        c = so.cells
        if len(c) < n:
            keys = sorted(k for k in c if soff - 16 < k < soff + n)
        else:
            keys = [k for k in range(soff - 15, soff + n) if k in c]
        covered = []
        for k in keys:
            x = c[k]
            if k + x[0] <= soff: continue
            if k >= soff and k + x[0] <= soff + n:
                items.append((k - soff, x)); covered.append((k, k + x[0]))
            else:
                if x[2] is UNDEF: continue
                b = self.cell_bytes(x)
                for i in range(x[0]):
                    if soff <= k + i < soff + n:
                        y = b[i]; items.append((k + i - soff, (1, "i", y if y < 128 else y - 256))); covered.append((k + i, k + i + 1))
        # uncovered parts come from base/fill or are undefined
        pos = soff; gaps = []
        for a, b in sorted(covered):
            if a > pos: gaps.append((pos, a))
            pos = max(pos, b)
        if pos < soff + n: gaps.append((pos, soff + n))
        gi = []
        for a, b in gaps:
            p = a
            while p < b:
                if so.base is not None and p < len(so.base): x = so.base[p]
                elif so.fill is not None: x = so.fill
                else: x = UNDEF
                # use 8 byte cells where possible
                if p % 8 == 0 and p + 8 <= b:
                    if so.base is not None and p + 8 <= len(so.base):
                        v = int.from_bytes(so.base[p:p + 8], "little", signed=True)
                    elif so.base is None or p >= len(so.base):
                        v = UNDEF if so.fill is None else int.from_bytes(bytes([so.fill]) * 8, "little", signed=True)
                    else: v = None
                    if v is not None:
                        gi.append((p - soff, (8, "i", v))); p += 8; continue
                gi.append((p - soff, (1, "i", x if x is UNDEF or x < 128 else x - 256))); p += 1
        # clear destination range
        self.clear_range(do, doff, n)
        for k, x in items: do.cells[doff + k] = x
        for k, x in gi: do.cells[doff + k] = x

    def clear_range(self, o, off, n):
        c = o.cells
        if len(c) < n + 16: keys = [k for k in c if off - 16 < k < off + n]
        else: keys = [k for k in range(off - 15, off + n) if k in c]
        for k in keys:
            x = c[k]
            if k + x[0] <= off: continue
            del c[k]
            if (k < off or k + x[0] > off + n) and x[2] is not UNDEF:
                b = self.cell_bytes(x)
                for i in range(x[0]):
                    if k + i < off or k + i >= off + n:
                        y = b[i]; c[k + i] = (1, "i", y if y < 128 else y - 256)

    def memset(self, dst, byte, n):
        if isinstance(n, Node): n = self.concretize(n)
        if n == 0: return
        o, off = self.find(dst, n, "write")
        if isinstance(byte, Node): byte = self.concretize(byte)
        self.clear_range(o, off, n)
        if off == 0 and n == o.size and byte is not UNDEF:
            o.fill = byte & 255; o.base = None; return
        p = off
        b = byte & 255
        w8 = int.from_bytes(bytes([b]) * 8, "little", signed=True)
        while p < off + n:
            if p % 8 == 0 and p + 8 <= off + n: o.cells[p] = (8, "i", w8); p += 8
            else: o.cells[p] = (1, "i", b if b < 128 else b - 256); p += 1

    def cstr(self, addr, limit=4096):
        out = []
        o, off = self.find(addr, 1, "read")
        while True:
            if off >= o.size: self.memerr("unterminated string")
            b = self.byte_at(o, off)
            if b is UNDEF: self.memerr("uninitialised string")
            if b == 0: break
            out.append(b); off += 1
        return bytes(out).decode("latin1")
    def write_bytes(self, addr, data):
        o, off = self.find(addr, len(data), "write")
        self.clear_range(o, off, len(data))
        for i, b in enumerate(data): o.cells[off + i] = (1, "i", b if b < 128 else b - 256)

    # ------------------------------------------------------------------------------- globals
    def init_globals(self):
        self.ctors = []
        for n, g in self.m.globals.items():
            if n.startswith("llvm."): continue
            a = self.alloc(max(g.size, 1), "global", n)
            self.gaddr[n] = a
        for n, g in self.m.globals.items():
            if n == "llvm.global_ctors":
                init = self.m.const(llvmir.GlobalInit(g.ptr))
                ent = []
                if init[0] == "a":
                    for e in init[2]:
                        ent.append((e[2][0][1], e[2][1][1]))
                self.ctors = [f for p, f in sorted(ent, key=lambda x: x[0])]
                continue
            if n.startswith("llvm."): continue
            if g.decl:
                o = self.objs[self.gaddr[n] >> SLOT]
                o.size = max(o.size, 4096); o.fill = 0
                continue
            init = self.m.const(llvmir.GlobalInit(g.ptr))
            o = self.objs[self.gaddr[n] >> SLOT]
            o.fill = 0
            self.write_const(o, 0, init, g.ty)
        # standard output streams: inlined manipulators look up the stream state behind the vtable pointer
        st = [n for n in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog") if n in self.gaddr]
        if st:
            v = self.alloc(64, "global", "stream vtable"); self.objs[v >> SLOT].fill = 0
            ct = self.alloc(640, "global", "ctype"); self.objs[ct >> SLOT].fill = 1
            for n in st:
                o = self.objs[self.gaddr[n] >> SLOT]
                self.put(o, 0, (8, "i", v + 24)); self.put(o, 240, (8, "i", ct))
        # external vtables of the C++ runtime get recognisable addresses through gaddr

    def write_const(self, o, off, c, ty):
        k = c[0]
        if k == "z" or (k == "u"): return
        if k == "s":
            b = bytearray(o.base) if o.base is not None else bytearray(o.size)
            b[off:off + len(c[2])] = c[2]; o.base = bytes(b); return
        if k == "a":
            t = c[1]
            for i, e in enumerate(c[2]):
                if t.kind == "struct": self.write_const(o, off + t.offs[i], e, t.elems[i])
                else: self.write_const(o, off + i * t.elem.size, e, t.elem)
            return
        v = self.cval(c)
        if ty.kind in ("struct", "array"): raise Unsupported("constant aggregate")
        self.store_at(o, off, v, ty)

    def cval(self, c):
        k = c[0]
        if k == "i" or k == "b": return c[1]
        if k == "f": return from_double(c[1])
        if k == "g": return self.gaddr[c[1]] if c[1] in self.gaddr else self.prog.faddr[c[1]]
        if k == "e+": return self.cval(c[1]) + c[2]
        if k == "u": return self.undef_of(c[1])
        if k == "z": return self.zero_of(c[1])
        if k == "a":
            return [self.cval(x) for x in c[2]]
        if k == "m": return None
        if k == "s": return [x if x < 128 else x - 256 for x in c[2]]
        if k == "e":
            ops = [self.cval(x) for x in c[2]]
            op = c[1]
            if op == "add": return ops[0] + ops[1]
            if op == "sub": return ops[0] - ops[1]
            if op in ("trunc", "zext", "sext"): return ops[0]
        raise Unsupported("constant %r" % (c,))
    def undef_of(self, t):
        if t is None: return UNDEF
        if t.kind == "struct": return [self.undef_of(e) for e in t.elems]
        if t.kind in ("array", "vector"): return [self.undef_of(t.elem) for _ in range(t.n)]
        return UNDEF
    def zero_of(self, t):
        if t.kind == "struct": return [self.zero_of(e) for e in t.elems]
        if t.kind in ("array", "vector"): return [self.zero_of(t.elem) for _ in range(t.n)]
        if t.kind == "int" and t.width == 1: return False
        return 0

    # ------------------------------------------------------------------------------- decisions
    def new_var(self, name, sort, lo, hi):
        if name in self.vars:
            i = 1
            while "%s#%d" % (name, i) in self.vars: i += 1
            name = "%s#%d" % (name, i)
        self.vars[name] = (sort, lo, hi)
        if name not in self.asg:
            if sort == "I": self.asg[name] = self.rng.randint(int(lo), int(hi))
            else:
                v = self.rng.uniform(float(lo), float(hi))
                self.asg[name] = lo if lo is hi else from_double(float("%.6g" % v))
        return name

    def ev(self, n):
        if self.evalr is None or self.evalr.asg is not self.asg:
            self.evalr = Evaluator(self.asg)
        return self.evalr.ev(n)
    def hpev(self, n):
        h = getattr(self, "hpr", None)
        if h is None or h.asg is not self.asg: h = self.hpr = HPEvaluator(self.asg)
        v = h.ev(n)
        if isinstance(v, bool): return v
        import mpmath
        with mpmath.workdps(60): return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v)

    def truth(self, c):
        """value of condition under the current witness: True/False or None if not trusted"""
        if not self.have_witness: return None
        try:
            op = c.op
            if op == "not":
                r = self.truth(c.a[0]); return None if r is None else not r
            if op in ("and", "or"):
                l = self.truth(c.a[0]) if isinstance(c.a[0], Node) else c.a[0]
                r = self.truth(c.a[1]) if isinstance(c.a[1], Node) else c.a[1]
                if op == "and":
                    if l is False or r is False: return False
                    return None if l is None or r is None else True
                if l is True or r is True: return True
                return None if l is None or r is None else False
            if op in ("lt", "le", "eq"):
                l = self.ev(c.a[0]); r = self.ev(c.a[1])
                if isinstance(l, int) and isinstance(r, int):
                    return l < r if op == "lt" else l <= r if op == "le" else l == r
                d = l - r
                sc = max(abs(l), abs(r), self.magnitude(c.a[0]), self.magnitude(c.a[1]))
                if abs(d) <= 1e-9 * sc and sc:
                    l = self.hpev(c.a[0]); r = self.hpev(c.a[1]); d = l - r; sc = max(abs(l), abs(r), float(sc))
                    if abs(d) <= sc * 1e-30: return None
                elif sc == 0:
                    if d == 0 and op != "eq" and sc == 0: return op == "le"
                    return None
                if op == "eq": return False
                return d < 0
            if op == "bvar": return bool(self.asg[c.a[0]])
        except (EvalError, OverflowError):
            return None
        return None
    def magnitude(self, n, depth=3):
        "scale of the terms entering a sum, to judge cancellation"
        if not isinstance(n, Node): return abs(float(n)) if not special(n) else 0.0
        if n.op == "add" and depth:
            return max(self.magnitude(n.a[0], depth - 1), self.magnitude(n.a[1], depth - 1))
        if n.op == "mul" and depth:
            return self.magnitude(n.a[0], depth - 1) * self.magnitude(n.a[1], depth - 1)
        if n.op == "div" and depth:
            d = abs(float(self.ev(n.a[1])))
            return self.magnitude(n.a[0], depth - 1) / d if d else 0.0
        return abs(float(self.ev(n)))

    # sign of a term from its structure: 2 positive, 1 non-negative, -1, -2, 0 unknown
    def sign(self, root):
        if not isinstance(root, Node):
            if special(root): return 0
            return 2 if root > 0 else -2 if root < 0 else 1
        if self.signmemo_n != len(self.known):
            self.signmemo = {k: v for k, v in self.signmemo.items() if abs(v) == 2} if self.signmemo_kn is self.known else {}
            self.signmemo_n = len(self.known); self.signmemo_kn = self.known
        memo = self.signmemo
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in memo: stack.pop(); continue
            todo = [x for x in n.a if isinstance(x, Node) and x.id not in memo and x.sort != "B"]
            if todo: stack.extend(todo); continue
            memo[n.id] = self.sign1(n, memo); stack.pop()
        return memo[root.id]
    def sign1(self, n, memo):
        def sg(x):
            if isinstance(x, Node): return memo[x.id]
            return 2 if x > 0 else -2 if x < 0 else 3          # 3: zero
        op = n.op; r = 0
        if n.sort == "I":
            if n.lo is not None: r = 2 if n.lo > 0 else 1 if n.lo >= 0 else 0
            if not r and n.hi is not None: r = -2 if n.hi < 0 else -1 if n.hi <= 0 else 0
        elif op == "add":
            a = sg(n.a[0]); b = sg(n.a[1])
            if a > 0 and b > 0: r = 2 if 2 in (a, b) else 1
            elif a in (-1, -2, 3) and b in (-1, -2, 3): r = -2 if -2 in (a, b) else -1
        elif op in ("mul", "div"):
            if op == "mul" and n.a[0] is n.a[1]:
                a = sg(n.a[0]); r = 2 if abs(a) == 2 else 1
                if r == 1 and self.nonzero(n.a[0]): r = 2
            else:
                a = sg(n.a[0]); b = sg(n.a[1])
                if a == 3: a = 1
                if op == "div" and abs(b) == 1: b *= 2          # a zero denominator was excluded
                if a and b:
                    r = (1 if (a > 0) == (b > 0) else -1) * (2 if abs(a) == 2 and abs(b) == 2 else 1)
        elif op == "sqrt": r = 2 if sg(n.a[0]) == 2 else 1
        elif op == "fn": r = 2 if n.a[0] in ("exp", "cosh") else 0
        elif op == "toreal": r = sg(n.a[0])
        if abs(r) < 2:
            k = self.known
            for o, l, rr, pos, neg in (("lt", 0, n, 2, -1), ("lt", n, 0, -2, 1), ("le", 0, n, 1, -2), ("le", n, 0, -1, 2)):
                c = terms._table.get((o, "B") + tuple(terms._key(x) for x in (l, rr)))
                if c is not None:
                    v = k.get(c.id)
                    if v is True: t = pos
                    elif v is False: t = neg
                    else: continue
                    if abs(t) > abs(r): r = t
            if abs(r) == 1 and self.nonzero(n): r *= 2
        return r
    def nonzero(self, n):
        if not isinstance(n, Node): return n != 0
        c = terms._table.get(("eq", "B", terms._key(n), 0))
        return c is not None and self.known.get(c.id) is False

    def abstract_unsat(self, extra, timeout=400):
        "tries to refute pc and extra with the deep sums replaced by fresh variables"
        H = max([alg.height(extra)] + [0])
        if H < 2: return False
        rel = [c for c in self.pc if alg.height(c) <= H][-40:]
        for lv in range(H - 1, max(0, H - 4), -1):
            r = smt.query_abs(rel + [extra], self.stats, lv, self.sign, timeout)
            if r == "unsat": return True
        return False

    def feasible(self, extra, timeout=None):
        """is pc and extra satisfiable? returns ('sat',asg)/('unsat',None)/('unknown',None)"""
        key = extra.id if isinstance(extra, Node) else extra
        if key in self.glob_unsat: return "unsat", None
        pcs = frozenset(c.id for c in self.pc)
        for s in self.unsat_cache.get(key, ()):
            if s <= pcs: return "unsat", None
        to = timeout or self.decide_timeout
        if isinstance(extra, Node) and self.abstract_unsat(extra):
            self.unsat_cache.setdefault(key, []).append(pcs); return "unsat", None
        r, a = smt.query(self.pc + [extra], self.stats, timeout=to)
        if r == "unknown" and self.pc:
            r2, a2 = smt.query([extra], self.stats, timeout=to // 2)
            if r2 == "unsat":
                self.glob_unsat.add(key); return "unsat", None
        if r == "unsat":
            self.unsat_cache.setdefault(key, []).append(pcs)
        return r, a

    def complete(self, a):
        d = dict(self.asg); d.update(a); return d

    def has_fn(self, c):
        "condition depends on a transcendental function, which the solver treats as a free symbol"
        memo = self.__dict__.setdefault("_hasfn", {})
        r = memo.get(c.id)
        if r is not None: return r
        seen = set(); st = [c]; r = False
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id)
            if n.op == "fn": r = True; break
            st.extend(x for x in n.a if isinstance(x, Node))
        memo[c.id] = r
        return r
    def witness_ok(self):
        """The witness may come from a model that interprets transcendental functions freely: it counts only if the path
        condition holds when they are evaluated.  Otherwise real inputs are varied until it does (or the witness is dropped)."""
        if not self.have_witness: return False
        if getattr(self, "_wok", None) == (len(self.pc), id(self.asg)): return True
        fnpc = [c for c in self.pc if self.has_fn(c)]
        def good():
            return all(self.truth(c) is True for c in (fnpc if first else self.pc))
        first = True
        if good(): self._wok = (len(self.pc), id(self.asg)); return True
        first = False
        rnd = random.Random(len(self.pc))
        names = [v for v in self.asg if isinstance(self.asg[v], (Fraction, float))]
        base = self.asg; t0 = time.time()
        for k in range(400):
            if time.time() - t0 > 5: break
            d = dict(base)
            for v in names:
                if rnd.random() < 0.5: continue
                x = d[v]
                d[v] = x * Fraction(rnd.randint(1, 40), rnd.randint(1, 20)) if x and rnd.random() < 0.7 else x + Fraction(rnd.randint(-20, 20), rnd.choice((1, 4, 10, 100)))
            self.asg = d
            if good(): self._wok = (len(self.pc), id(self.asg)); return True
        self.asg = base; self.have_witness = False
        return False

    def add_pc(self, c):
        if c is True: return
        self.pc.append(c)
        self.note_known(c, True)
    def note_known(self, c, val):
        if isinstance(c, bool): return
        self.known[c.id] = val
        if c.op == "not": self.note_known(c.a[0], not val)
        elif c.op == "and" and val:
            for x in c.a: self.note_known(x, True)
        elif c.op == "or" and not val:
            for x in c.a: self.note_known(x, False)
        elif c.op == "le" :
            # a<=b true  <=> not (b<a)
            k = cmp("lt", c.a[1], c.a[0])
            if isinstance(k, Node): self.known[k.id] = not val
        elif c.op == "lt":
            k = cmp("le", c.a[1], c.a[0])
            if isinstance(k, Node): self.known[k.id] = not val

    def closed(self, n):
        "no inputs in the term: only constants and functions of constants"
        memo = self.__dict__.setdefault("_closed", {})
        st = [n]
        while st:
            m = st[-1]
            if m.id in memo: st.pop(); continue
            if m.op == "var": memo[m.id] = False; st.pop(); continue
            kids = [x for x in m.a if isinstance(x, Node)]
            bad = any(memo.get(x.id) is False for x in kids)
            todo = [] if bad else [x for x in kids if x.id not in memo]
            if todo: st.append(todo[0]); continue
            memo[m.id] = not bad; st.pop()
        return memo[n.id]
    def lookup(self, c):
        if isinstance(c, bool): return c
        k = self.known.get(c.id)
        if k is not None: return k
        if c.op in ("lt", "le") and not any(isinstance(x, Node) and x.sort != "R" for x in c.a) and self.closed(c):
            try:
                x, y = [float(self.hpev(v)) if isinstance(v, Node) else float(v) for v in c.a]
                if abs(x - y) > 1e-12 * (1 + max(abs(x), abs(y))): r = bool(x < y); self.known[c.id] = r; return r
            except (EvalError, OverflowError): pass
        if c.op == "not":
            r = self.lookup(c.a[0]); return None if r is None else not r
        if c.op == "and":
            l = self.lookup(c.a[0]); r = self.lookup(c.a[1])
            if l is False or r is False: return False
            if l and r: return True
        if c.op == "or":
            l = self.lookup(c.a[0]); r = self.lookup(c.a[1])
            if l or r: return True
            if l is False and r is False: return False
        if c.op in ("lt", "le", "eq") and not (isinstance(c.a[0], Node) and c.a[0].sort == "I") and not (isinstance(c.a[1], Node) and c.a[1].sort == "I"):
            if not isinstance(c.a[1], Node) or not isinstance(c.a[0], Node):
                if isnum(c.a[1]) and c.a[1] == 0: s = self.sign(c.a[0])
                elif isnum(c.a[0]) and c.a[0] == 0: s = -self.sign(c.a[1])
                else: s = 0
                if s:
                    if c.op == "lt":
                        if s == -2: return True
                        if s > 0: return False
                    if c.op == "le":
                        if s < 0: return True
                        if s == 2: return False
                    if c.op == "eq" and abs(s) == 2: return False
            # constant difference / syntactic sign
            try:
                d = alg.rf_add(alg.to_rf(c.a[0]), alg.rf_neg(alg.to_rf(c.a[1])))
            except (alg.TooBig, ValueError, ZeroDivisionError): return None
            if not d[0]: return c.op != "lt"
            s = self.psign(d[0])
            if s:
                for f, e in d[1]:
                    if e % 2:
                        t = self.psign(alg.factors[f])
                        if t > 0: continue
                        if t < 0: s = -s; continue
                        s = 0; break
            if s:
                if c.op == "lt":
                    if s == -2: return True
                    if s > 0: return False
                if c.op == "le":
                    if s < 0: return True
                    if s == 2: return False
                if c.op == "eq" and abs(s) == 2: return False
        return None

    def psign(self, p):
        "sign of a polynomial from the known signs of its atoms: 2 >0, 1 >=0, -2 <0, -1 <=0, 0 unknown"
        if len(p) > 60: return 0
        pos = neg = True; strict = False; memo = {}
        for m, c in p.items():
            s = 2 if c > 0 else -2
            for i, e in alg.mono_items(m):
                a = alg.atoms[i]
                v = memo.get(i)
                if v is None:
                    v = 2 if a.positive else 1 if a.nonneg else 0
                    if v != 2 and a.kind == "var" and isinstance(a.info, Node): v = self.sign(a.info) or v
                    memo[i] = v
                if e % 2 == 0: t = 2 if abs(v) == 2 else 1
                else: t = v
                if t == 0: s = 0; break
                s = (1 if (s > 0) == (t > 0) else -1) * min(abs(s), abs(t))
            if s == 0: return 0
            if s > 0: neg = False
            else: pos = False
            if abs(s) == 2: strict = True
            if not pos and not neg: return 0
        if pos: return 2 if strict else 1
        return -2 if strict else -1

    def decide(self, c, kind="branch"):
        if isinstance(c, bool): return c
        if c is UNDEF:
            self.results.append(("uninit:branch on an uninitialised value", "fail", "uninit"))
            raise PathEnd("memerr", "branch depends on uninitialised value")
        r = self.lookup(c)
        if r is not None: return r
        i = len(self.trace)
        if i < len(self.prefix):
            out, forced = self.prefix[i]
            self.trace.append((out, forced))
            cc = c if out else bnot(c)
            if forced: self.note_known(cc, True)
            else: self.add_pc(cc)
            return out
        nc = bnot(c)
        w = self.truth(c)
        if w is None:
            r1, a1 = self.feasible(c)
            if r1 == "unsat": out, forced = False, True
            else:
                r2, a2 = self.feasible(nc)
                if r2 == "unsat": out, forced = True, True
                else:
                    forced = False
                    if r1 == "sat":
                        out = True; self.asg = self.complete(a1); self.have_witness = True
                        self.spawn.append((self.trace + [(False, False)], self.complete(a2) if r2 == "sat" else None))
                    elif r2 == "sat":
                        out = False; self.asg = self.complete(a2); self.have_witness = True
                        self.spawn.append((self.trace + [(True, False)], None))
                    else:
                        out = True; self.have_witness = False
                        self.spawn.append((self.trace + [(False, False)], None))
        else:
            out = w
            r2, a2 = self.feasible(nc if w else c)
            if r2 == "unsat": forced = True
            else:
                forced = False
                self.spawn.append((self.trace + [(not out, False)], self.complete(a2) if r2 == "sat" else None))
        self.trace.append((out, forced))
        cc = c if out else bnot(c)
        if forced: self.note_known(cc, True)
        else: self.add_pc(cc)
        return out

    def never(self, c, what):
        """c is an exceptional condition (zero denominator, negative radicand, overflow).  Returns True if the path
        continues with c true (fork), False otherwise.  An undecided query is recorded as an assumption."""
        if isinstance(c, bool): return c
        r = self.lookup(c)
        if r is not None: return r
        i = len(self.trace)
        if i < len(self.prefix):
            out, forced = self.prefix[i]; self.trace.append((out, forced))
            cc = c if out else bnot(c)
            if forced: self.note_known(cc, True)
            else: self.add_pc(cc)
            return out
        # conditions that were undecided before (on other paths) get less and less time
        nu = self.never_unknown.get(c.id, 0)
        r, a = self.feasible(c, timeout=max(60, 1500 // 5 ** nu))
        if r == "unknown": self.never_unknown[c.id] = nu + 1
        out = False
        if r == "sat":
            # exclude it on this path, explore it on another one (unless the rest is impossible)
            w = self.truth(c)
            if w is None or w:
                r2, a2 = self.feasible(bnot(c))
                if r2 == "unsat":
                    self.trace.append((True, True)); self.note_known(c, True); return True
                if r2 == "sat": self.asg = self.complete(a2); self.have_witness = True
            self.spawn.append((self.trace + [(True, False)], self.complete(a)))
            self.trace.append((False, False)); self.add_pc(bnot(c))
        else:
            if r == "unknown":
                self.assumed.append(what)
            self.trace.append((False, True)); self.note_known(bnot(c), True)
        return out

    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd("infeasible")
        if c is UNDEF: raise PathEnd("memerr", "assume on uninitialised value")
        r = self.lookup(c)
        if r is True: return
        if r is False: raise PathEnd("infeasible")
        self.add_pc(c)
        i = len(self.trace)
        if i < len(self.prefix):
            self.trace.append(self.prefix[i]); return
        w = self.truth(c)
        if w is not True:
            rr, a = smt.query(self.pc, self.stats, timeout=self.decide_timeout)
            if rr == "unsat": raise PathEnd("infeasible")
            if rr == "sat": self.asg = self.complete(a); self.have_witness = True
            else: self.have_witness = False
        self.trace.append((True, False))

    def concretize(self, n):
        "fork over the feasible values of an integer term"
        if not isinstance(n, Node): return n
        if n.sort == "B": return 1 if self.decide(n) else 0
        if n.op == "iadd" and isnum(n.a[1]): return self.concretize(n.a[0]) + n.a[1]
        if n.op == "imul" and isnum(n.a[0]): return n.a[0] * self.concretize(n.a[1])
        for k in range(300):
            if k == 4 and len(self.trace) >= len(self.prefix) and smt.query(self.pc, self.stats, timeout=self.decide_timeout)[0] == "unsat": raise PathEnd("infeasible")
            v = None
            for (nid, val) in self.conc_known(n): v = val
            if v is not None: return v
            # the candidate is taken from the witness (or a model) and recorded, so that replays follow the same order
            i = len(self.trace)
            if i < len(self.prefix): cand = self.prefix[i][0]
            else:
                cand = None; no = self.conc_not.get(n.id, set())
                if not self.have_witness:
                    r, a = smt.query(self.pc + [bnot(cmp("eq", n, x)) for x in no], self.stats, timeout=self.decide_timeout)
                    if r == "unsat": raise PathEnd("infeasible")
                    if r == "sat": self.asg = self.complete(a); self.have_witness = True
                if self.have_witness:
                    try: cand = int(self.ev(n))
                    except (EvalError, KeyError, OverflowError): cand = None
                if cand is None or cand in no: cand = self.conc_candidate(n, None)
            self.trace.append((cand, True))
            if self.decide(cmp("eq", n, cand)):
                self.conc[n.id] = cand; self.learn(n, cand); return cand
            self.conc_not.setdefault(n.id, set()).add(cand)
        raise Unsupported("too many values of a symbolic integer")
    def learn(self, n, v):
        "an integer term has this value on the path"
        while isinstance(n, Node):
            if n.op == "iadd" and isnum(n.a[1]): v -= n.a[1]; n = n.a[0]
            elif n.op == "imul" and isnum(n.a[0]) and v % n.a[0] == 0: v //= n.a[0]; n = n.a[1]
            else:
                if n.id not in self.eqs: self.eqs[n.id] = v; self.submemo = {}
                return
    def sub(self, root):
        "replaces integer terms by their values known on this path"
        if not self.eqs or not isinstance(root, Node): return root
        memo = self.submemo; stack = [root]
        while stack:
            n = stack[-1]
            if n.id in memo: stack.pop(); continue
            if n.id in self.eqs: memo[n.id] = self.eqs[n.id]; stack.pop(); continue
            todo = [x for x in n.a if isinstance(x, Node) and x.id not in memo]
            if todo: stack.extend(todo); continue
            a = [memo[x.id] if isinstance(x, Node) else x for x in n.a]
            if all(x is y for x, y in zip(a, n.a)): r = n
            else:
                f = _REBUILD.get(n.op)
                try: r = f(*a) if f else n
                except (ZeroDivisionError, ArithmeticError): r = n
            memo[n.id] = r; stack.pop()
        return memo[root.id]
    def conc_known(self, n): 
        c = getattr(self, "_conc_path", None)
        if c is not self.trace: self._conc_path = self.trace; self.conc = {}; self.conc_not = {}
        return [(n.id, self.conc[n.id])] if n.id in self.conc else []
    def conc_candidate(self, n, cand):
        # the order of candidates must be reproducible when a prefix is replayed: use a canonical enumeration
        no = self.conc_not.get(n.id, set())
        lo, hi = n.lo, n.hi
        if lo is not None and hi is not None and hi - lo <= 64:
            for v in range(lo, hi + 1):
                if v not in no: return v
            raise PathEnd("infeasible")
        k = 0
        while True:
            for v in ((k,) if k == 0 else (k, -k)):
                if v not in no: return v
            k += 1

    def choose(self, name, lo, hi):
        "fork over the values of a discrete harness input"
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][0]
            self.trace.append((v, False)); self.asg[name] = v
            return v
        v = self.asg.get(name, lo)
        if not lo <= v <= hi: v = lo
        for u in range(lo, hi + 1):
            if u != v:
                d = dict(self.asg); d[name] = u
                self.spawn.append((self.trace + [(u, False)], d if self.have_witness else None))
        self.trace.append((v, False)); self.asg[name] = v
        return v

    # ------------------------------------------------------------------------------- checks
    def check(self, name, c):
        if self.lasterr: pass
        if c is UNDEF:
            self.results.append((name, "fail", "uninit", dict(self.asg))); return
        if c is True: self.results.append((name, "ok", "const")); return
        if c is False:
            self.results.append((name, "fail", "const", dict(self.asg), self.have_witness)); return
        r = self.lookup(c)
        if r is True:
            self.stats.algebraic += 1
            self.results.append((name, "ok", "path")); return
        t = self.truth(c)
        if t is False and self.have_witness and self.witness_ok(): t = self.truth(c)
        if t is False and self.have_witness:
            self.results.append((name, "fail", "witness", dict(self.asg), True)); return
        if self.abstract_unsat(bnot(c), 1500):
            self.results.append((name, "ok", "smt (abstraction)")); return
        r, a = smt.query(self.pc + [bnot(c)], self.stats, timeout=self.qtimeout)
        if r == "unknown":
            r2, _ = smt.query([bnot(c)], self.stats, timeout=self.qtimeout)
            if r2 == "unsat": r = "unsat"
        if r == "unsat": self.results.append((name, "ok", "smt"))
        elif r == "sat": self.results.append((name, "fail", "smt", self.complete(a), True))
        else: self.results.append((name, "unknown", "smt", dict(self.asg), self.have_witness))

    def check_eq(self, name, a, b):
        if a is UNDEF or b is UNDEF:
            self.results.append((name, "fail", "uninit", dict(self.asg), True)); return
        if special(a) or special(b):
            if a is b and a is not NAN: self.results.append((name, "ok", "const"))
            else: self.results.append((name, "fail", "nan", dict(self.asg), True))
            return
        if a is b: self.results.append((name, "ok", "identical")); return
        if isnum(a) and isnum(b):
            d = abs(a - b)
            ok = d == 0 or d <= Fraction(1, 10**12) * max(abs(a), abs(b))
            self.results.append((name, "ok", "const") if ok else (name, "fail", "const", dict(self.asg), self.have_witness)); return
        a = self.sub(a); b = self.sub(b)
        if isnum(a) and isnum(b):
            self.results.append((name, "ok", "const") if abs(a - b) <= Fraction(1, 10**12) * max(abs(a), abs(b)) else (name, "fail", "const", dict(self.asg), self.have_witness)); return
        if a is b: self.results.append((name, "ok", "identical")); return
        # numeric screening first: a clear difference under the witness needs no proof attempt
        if self.have_witness:
            try:
                x = float(self.ev(a)); y = float(self.ev(b))
                if abs(x - y) > 1e-6 * max(abs(x), abs(y)) and not self.witness_ok(): raise EvalError("witness")
                x = float(self.ev(a)); y = float(self.ev(b))
                sc = max(abs(x), abs(y), self.magnitude(a, 6), self.magnitude(b, 6))
                if abs(x - y) > 1e-6 * sc:
                    x = self.hpev(a); y = self.hpev(b)
                    if abs(x - y) > 1e-6 * max(abs(x), abs(y)) and abs(x - y) > 1e-25 * sc: self.results.append((name, "fail", "witness", dict(self.asg), True)); return
            except (EvalError, OverflowError): pass
        t0 = time.time()
        if self.identity_abs(name, a, b): return
        try:
            ra = alg.to_rf(a); rb = alg.to_rf(b)
            d = alg.rf_add(ra, alg.rf_neg(rb))
            if not d[0] or self.tiny(d, ra, rb):
                # the normal forms agree; the SMT solver confirms that the equation has no counterexample
                self.stats.algebraic += 1
                ok = smt.confirm_identity(ra, rb, self.stats) if not d[0] else False
                self.results.append((name, "ok", "smt (polynomial identity)" if ok else "polynomial normal form")); return
        except (alg.TooBig, ZeroDivisionError, ValueError):
            d = None
        r, asg = smt.query(self.pc + [bnot(cmp("eq", a, b))], self.stats, timeout=self.qtimeout)
        if r == "unsat": self.results.append((name, "ok", "smt")); return
        if r == "sat":
            best = self.complete(asg)
            # look for a clearly visible difference
            gap = rsub(a, b)
            for big in (1, Fraction(1, 100)):
                q = bor(cmp("lt", big, gap), cmp("lt", gap, -big))
                if isinstance(q, Node):
                    r2, a2 = smt.query(self.pc + [q], self.stats, timeout=self.qtimeout)
                    if r2 == "sat": best = self.complete(a2); break
            self.results.append((name, "fail", "smt", best, True)); return
        self.results.append((name, "unknown", "smt", dict(self.asg), self.have_witness))

    def identity_abs(self, name, a, b):
        "the identity with deep sums replaced by fresh variables, from coarse to fine"
        H = max(alg.height(a), alg.height(b))
        if H < 2: return False
        old = alg.LIMIT
        for lv in range(H - 1, 0, -1):
            ab = alg.Abs(lv, self.sign)
            try:
                alg.LIMIT = 6000
                ra = ab.rf(a); rb = ab.rf(b)
                d = alg.rf_add(ra, alg.rf_neg(rb))
            except (alg.TooBig, ZeroDivisionError, ValueError):
                continue
            finally: alg.LIMIT = old
            if not d[0] or self.tiny(d, ra, rb):
                self.stats.algebraic += 1
                ok = smt.confirm_identity(ra, rb, self.stats) if not d[0] else False
                self.results.append((name, "ok", "smt (polynomial identity)" if ok else "polynomial normal form")); return True
        return False

    def tiny(self, d, ra, rb):
        "residual within the rounding of constants folded by the compiler (1e-12 of the operands' coefficients)"
        if ra[1] != rb[1] or d[1] != ra[1]:
            try:
                # bring all to the denominators of d
                ra = alg.rf_add(ra, (d[0], d[1])); ra = alg.rf_add(ra, alg.rf_neg(d))
            except alg.TooBig: return False
        ref = {}
        for p in (ra[0], rb[0]):
            for m, c in p.items(): ref[m] = max(ref.get(m, 0), abs(c))
        for m, c in d[0].items():
            r = ref.get(m)
            if r is None or abs(c) > Fraction(1, 10**12) * r: return False
        self.notes.add("an equality holds up to 1e-12 relative rounding of constants")
        return True

    # ------------------------------------------------------------------------------- real arithmetic with obligations
    def fdiv(self, a, b):
        if isinstance(b, Node):
            if self.never(cmp("eq", b, 0), "denominator non-zero"): return NAN
        elif isnum(b) and b == 0 and not special(a):
            # a literal zero counts as positive
            if self.decide(cmp("lt", 0, a)): return INF
            return NINF if self.decide(cmp("lt", a, 0)) else NAN
        return self.fsum(rdiv(a, b))
    def fsum(self, n):
        "a sum whose terms cancel is replaced by its simple value"
        if not isinstance(n, Node) or n.op not in ("add", "div"): return n
        r = _FSUM.get(n.id)
        if r is None: r = _FSUM[n.id] = (self._fsum(n),)
        return r[0]
    def _fsum(self, n):
        k = self.est(n, top=True)
        if k < 2 and n.op != "div" or k > 1500: return n
        try: r = alg.cancel(alg.to_rf(n))
        except (alg.TooBig, ValueError, ZeroDivisionError, NotImplementedError): return n
        n.rf = r
        m = len(r[0])
        if m == 0: return 0
        if m <= 8 and m + sum(-e * len(alg.factors[f]) for f, e in r[1]) < k // 2 or not r[1] and m <= 4:
            v = self.poly_node(r[0])
            for f, e in r[1]:
                if e > 0 or v is None: return n
                fn = self.poly_node(alg.factors[f])
                if fn is None: return n
                for _ in range(-e): v = rdiv(v, fn)
            if v is None: return n
            if isinstance(v, Node) and v.rf is None: v.rf = r
            return v
        return n
    def est(self, n, depth=12, top=False):
        if not isinstance(n, Node): return 1
        if n.rf is not None and not top: return len(n.rf[0]) + sum(abs(e) * len(alg.factors[f]) // 2 for f, e in n.rf[1])
        if n.op in ("var", "toreal"): return 1
        if depth == 0: return 10000
        if n.op == "add": return self.est(n.a[0], depth - 1) + self.est(n.a[1], depth - 1)
        if n.op in ("mul", "div"): return self.est(n.a[0], depth - 1) * self.est(n.a[1], depth - 1)
        return 10000
    def fsqrt(self, a):
        if isinstance(a, Node):
            if self.never(cmp("lt", a, 0), "radicand non-negative"): return NAN
            # perfect squares become absolute values
            try:
                P, F = alg.to_rf(a)
            except (alg.TooBig, ValueError, ZeroDivisionError): return rsqrt(a)
            if not P: return 0
            if len(P) <= 4000:
                q = alg.rf_root((P, F))
                if q is not None:
                    n = self.poly_node(q[0])
                    if n is not None:
                        den = 1
                        for f, e in q[1]:
                            fn = self.poly_node(alg.factors[f])
                            if fn is None: den = None; break
                            for _ in range(-e): den = rmul(den, fn)
                        if den is not None: return rdiv(self.fabs(n), self.fabs(den)) if den != 1 else self.fabs(n)
        return rsqrt(a)
    def poly_node(self, q):
        out = 0
        for m, c in sorted(q.items()):
            t = c
            for i, e in alg.mono_items(m):
                a = alg.atoms[i]
                if a.kind == "var": n = a.info
                elif a.kind == "int": n = toreal(a.info)
                else: return None
                for _ in range(e): t = rmul(t, n)
            out = radd(out, t)
        return out
    def fabs(self, a):
        if special(a): return INF if a is NINF else a
        if isnum(a): return abs(a)
        return rneg(a) if self.decide(cmp("lt", a, 0)) else a
    def rpow(self, a, b):
        if isnum(b) and not special(b):
            fb = Fraction(b)
            if fb.denominator == 1 and abs(fb) <= 16:
                n = int(fb)
                r = 1
                for _ in range(abs(n)): r = rmul(r, a)
                return r if n >= 0 else self.fdiv(1, r)
            if fb.denominator == 2 and abs(fb) <= 8:
                s = self.fsqrt(a); r = 1
                for _ in range(abs(int(fb * 2))): r = rmul(r, s)
                return r if fb > 0 else self.fdiv(1, r)
        return rfn("pow", a, b)
    def ffloor(self, a):
        if special(a): return a
        return toreal(ifloor(a))
    def fround(self, a):
        if special(a): return a
        half = Fraction(1, 2)
        if isnum(a): return math.floor(a + half) if a >= 0 else -math.floor(-a + half)
        if self.decide(cmp("lt", a, 0)): return rneg(toreal(ifloor(radd(rneg(a), half))))
        return toreal(ifloor(radd(a, half)))
    def ftrunc_int(self, a, w, signed=True):
        "fptosi"
        if a is UNDEF: return UNDEF
        if special(a):
            self.notes.add("conversion of a non-finite number to integer"); return UNDEF
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if isnum(a):
            v = math.floor(a) if a >= 0 else -math.floor(-a)
            if v < lo or v > hi:
                self.results.append(("overflow:float to integer conversion out of range", "fail", "overflow")); raise PathEnd("memerr", "float to int overflow")
            return v
        if a.op == "toreal" :
            n = a.a[0]
        elif a.op == "mul" and a.a[0] == -1 and isinstance(a.a[1], Node) and a.a[1].op == "toreal":
            n = imul(-1, a.a[1].a[0])
        else:
            if self.decide(cmp("lt", a, 0)): n = imul(-1, ifloor(rneg(a)))
            else: n = ifloor(a)
        if isnum(n): return n
        # range: out-of-range conversions are undefined in C++; such values are excluded and noted
        bad = bor(cmp("lt", n, lo), cmp("lt", hi, n))
        if isinstance(bad, Node) and self.lookup(bad) is None:
            self.notes.add("values whose conversion to a %d bit integer overflows are excluded" % w)
            self.soft_assume(bnot(bad))
        return n

    def soft_assume(self, c):
        "restrict the path to c (recorded as an exclusion); keeps the witness valid"
        i = len(self.trace)
        self.add_pc(c)
        if i < len(self.prefix): self.trace.append(self.prefix[i]); return
        if self.truth(c) is not True:
            rr, a = smt.query(self.pc, self.stats, timeout=self.decide_timeout)
            if rr == "unsat": raise PathEnd("infeasible")
            if rr == "sat": self.asg = self.complete(a)
        self.trace.append((True, False))

    # ------------------------------------------------------------------------------- integers
    def wrap(self, v, w, nsw=False, unsigned=False):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if not isinstance(v, Node):
            if lo <= v <= hi: return v
            if nsw:
                self.results.append(("overflow:signed integer overflow", "fail", "overflow")); raise PathEnd("memerr", "signed overflow")
            v &= (1 << w) - 1
            return v - (1 << w) if v > hi else v
        if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi: return v
        bad = bor(cmp("lt", v, lo), cmp("lt", hi, v))
        if isinstance(bad, bool) and not bad: return v
        if nsw:
            if self.never(bad, "no signed overflow"):
                self.results.append(("overflow:signed integer overflow", "fail", "overflow", dict(self.asg), True)); raise PathEnd("memerr", "signed overflow")
            return v
        if self.never(bad, "no wrap-around"):
            return iadd(ifmod(iadd(v, 1 << (w - 1)), 1 << w), -(1 << (w - 1)))
        return v
    def uns(self, v, w):
        "unsigned value of a canonical signed integer"
        if not isinstance(v, Node): return v if v >= 0 else v + (1 << w)
        if v.lo is not None and v.lo >= 0: return v
        if self.decide(cmp("lt", v, 0)): return iadd(v, 1 << w)
        return v

    def ibin(self, op, a, b, w, nsw):
        if isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported("bit operation on a double")
        if w == 1: return self.bbin(op, a, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        ca = not isinstance(a, Node); cb = not isinstance(b, Node)
        if op == "add": return self.wrap(iadd(a, b), w, nsw)
        if op == "sub": return self.wrap(isub(a, b), w, nsw)
        if op == "mul": return self.wrap(imul(a, b), w, nsw)
        M = (1 << w) - 1
        if ca and cb:
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.results.append(("arith:integer division by zero", "fail", "div0")); raise PathEnd("memerr", "integer division by zero")
                if op[0] == "u":
                    x, y = a & M, b & M; r = x // y if op == "udiv" else x % y
                else:
                    q = abs(a) // abs(b)
                    if (a < 0) != (b < 0): q = -q
                    r = q if op == "sdiv" else a - q * b
                return self.wrap(r, w)
            if op == "shl": return self.wrap((a & M) << (b & M), w)
            if op == "lshr": return self.wrap((a & M) >> (b & M), w)
            if op == "ashr": return a >> (b & M)
        if cb:
            if op in ("and",) and b == 0: return 0
            if op == "and" and b > 0 and (b & (b + 1)) == 0: return ifmod(self.uns(a, w), b + 1) 
            if op == "and" and b == -1: return a
            if op == "and" and b < 0 and ((-b) & (-b - 1)) == 0:
                # clears low bits
                return isub(a, ifmod(self.uns(a, w), -b))
            if op in ("or", "xor") and b == 0: return a
            if op == "xor" and b == -1: return isub(-1, a)
            if op == "shl": return self.wrap(imul(a, 1 << (b & M)), w, nsw)
            if op == "lshr": return ifdiv(self.uns(a, w), 1 << (b & M))
            if op == "ashr": return ifdiv(a, 1 << (b & M))
            if op in ("udiv", "urem") and b > 0:
                u = self.uns(a, w); return ifdiv(u, b) if op == "udiv" else ifmod(u, b)
            if op in ("sdiv", "srem") and b > 0:
                if a.lo is not None and a.lo >= 0: neg = False
                else: neg = self.decide(cmp("lt", a, 0))
                q = imul(-1, ifdiv(imul(-1, a), b)) if neg else ifdiv(a, b)
                return q if op == "sdiv" else isub(a, imul(b, q))
        if not cb and op in ("udiv", "urem", "sdiv", "srem"):
            if self.decide(cmp("eq", b, 0)):
                self.results.append(("arith:integer division by zero", "fail", "div0", dict(self.asg), True)); raise PathEnd("memerr", "integer division by zero")
            pos = lambda x: x >= 0 if not isinstance(x, Node) else True if x.lo is not None and x.lo >= 0 else not self.decide(cmp("lt", x, 0))
            if pos(a) and pos(b): return ifdiv(a, b) if op[1:] == "div" else ifmod(a, b)
        # fall back to enumerating the values
        return self.ibin(op, self.concretize(a), self.concretize(b), w, nsw) if op not in ("udiv", "urem", "sdiv", "srem") or cb else self.ibin(op, a, self.concretize(b), w, nsw)

    def bbin(self, op, a, b):
        if op == "and": return band(a, b)
        if op == "or": return bor(a, b)
        if op in ("xor", "add", "sub"):
            if a is UNDEF or b is UNDEF: return UNDEF
            if b is True: return bnot(a)
            if b is False: return a
            if a is True: return bnot(b)
            if a is False: return b
            return self.decide(a) != self.decide(b)
        if op == "mul": return band(a, b)
        raise Unsupported("i1 " + op)

    def icmp(self, p, a, b, w):
        if w == 1:
            if a is UNDEF or b is UNDEF: return UNDEF
            if isinstance(a, int) and not isinstance(a, bool): a = bool(a)
            if isinstance(b, int) and not isinstance(b, bool): b = bool(b)
            if p == "eq": return a if b is True else bnot(a) if b is False else self.decide(a) == self.decide(b)
            if p == "ne": return bnot(a) if b is True else a if b is False else self.decide(a) != self.decide(b)
            a = -int(self.decide(a)); b = -int(self.decide(b))
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Bits) or isinstance(b, Bits):
            x = a.v if isinstance(a, Bits) else (0 if a == 0 else from_double(struct.unpack("<d", struct.pack("<q", a))[0]))
            y = b.v if isinstance(b, Bits) else (0 if b == 0 else from_double(struct.unpack("<d", struct.pack("<q", b))[0]))
            if p in ("eq", "ne"):
                r = cmp("eq", x, y); return r if p == "eq" else bnot(r)
            raise Unsupported("comparison of double bits")
        if not isinstance(a, Node) and not isinstance(b, Node):
            if p == "eq": return a == b
            if p == "ne": return a != b
            if p[0] == "u":
                M = (1 << w) - 1; a &= M; b &= M
            q = p[1:]
            return a < b if q == "lt" else a <= b if q == "le" else a > b if q == "gt" else a >= b
        if p == "eq": return cmp("eq", a, b)
        if p == "ne": return bnot(cmp("eq", a, b))
        if p[0] == "u": a = self.uns(a, w); b = self.uns(b, w)
        q = p[1:]
        if q == "lt": return cmp("lt", a, b)
        if q == "le": return cmp("le", a, b)
        if q == "gt": return cmp("lt", b, a)
        return cmp("le", b, a)

    def cast(self, op, v, st, t):
        if isinstance(v, list): return [self.cast(op, x, st.elem, t.elem) for x in v]
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            if op == "freeze" and v is UNDEF: return UNDEF
            if op == "bitcast" and st.kind != t.kind and {st.kind, t.kind} & {"double"}:
                if t.kind == "double":
                    if isinstance(v, Bits): return v.v
                    return 0 if v == 0 else from_double(struct.unpack("<d", struct.pack("<q", v))[0])
                if isinstance(v, Node): return Bits(v)
                return bits_of(todouble(v))
            return v
        if v is UNDEF: return UNDEF
        if op in ("trunc", "zext", "sext"):
            if isinstance(v, Bits):
                raise Unsupported("truncation of a double")
            if st.width == 1:
                b = self.decide(v)
                return (1 if b else 0) if op == "zext" else (-1 if b else 0)
            if op == "zext": return self.wrap(self.uns(v, st.width), t.width)
            if op == "sext": return v
            if t.width == 1:
                if isinstance(v, Node): v = self.concretize(ifmod(self.uns(v, st.width), 2))
                return bool(v & 1)
            return self.wrap(v, t.width)
        if op == "sitofp":
            if st.width == 1: return -1 if self.decide(v) else 0
            return toreal(v)
        if op == "uitofp":
            if st.width == 1: return 1 if self.decide(v) else 0
            return toreal(self.uns(v, st.width))
        if op == "fptosi": return self.ftrunc_int(v, t.width)
        if op == "fptoui": return self.wrap(self.ftrunc_int(v, t.width, False), t.width)
        if op in ("fpext", "fptrunc"): return v
        raise Unsupported("cast " + op)

    def rnd(self, r, a, b, mult=False):
        """result of a floating point operation in the standard model of rounding errors: r (1 + d), |d| <= 2^-53, with an
        arbitrary d for every inexact operation (only if the harness asked for it; overflow and underflow not included)"""
        if not self.rounding or special(r): return r
        if isnum(r):
            try: return from_double(float(r))
            except OverflowError: return r
        if not mult and (a is r or b is r or isnum(a) and a == 0 or isnum(b) and b == 0): return r
        if mult:
            for x in (a, b):
                if isnum(x) and not special(x) and x:
                    f = Fraction(abs(x)); n = f.numerator; d = f.denominator
                    if n & (n - 1) == 0 and d & (d - 1) == 0: return r
        self.rounding += 1
        u = Fraction(1, 1 << 53)
        if self.rounding_linear:        # the result itself as variable: keeps linear arithmetic linear
            try:
                x = self.hpev(r)
                if not isinstance(x, (int, Fraction)):
                    m, e = int(x.man), int(x.exp); x = Fraction(m * (1 << e) if e >= 0 else Fraction(m, 1 << -e)) * (-1 if x < 0 else 1) if x else Fraction(0)
            except EvalError: x = Fraction(0)
            name = self.new_var("~r", "R", x, x)
            if abs(self.asg[name] - x) > abs(x) * u * (1 + Fraction(1, 1 << 90)): self.asg[name] = x        # a value left from another path
            if mult and isinstance(a, Node) and isinstance(b, Node): return rvar(name)        # products of variables: any value (keeps the queries linear)
            v = rvar(name); lo = rmul(r, 1 - u); hi = rmul(r, 1 + u)
            self.add_pc(bor(band(cmp("le", 0, r), band(cmp("le", lo, v), cmp("le", v, hi))), band(cmp("lt", r, 0), band(cmp("le", hi, v), cmp("le", v, lo)))))
            return v
        v = rvar(self.new_var("~r", "R", -u, u)); one = radd(1, v)
        self.add_pc(cmp("le", -u, v)); self.add_pc(cmp("le", v, u)); self.note_known(cmp("lt", 0, one), True)
        return rmul(r, one)

    def fbin(self, op, a, b):
        if isinstance(a, list): return [self.fbin(op, x, y) for x, y in zip(a, b)]
        if op == "fadd": return self.rnd(radd(a, b), a, b)
        if op == "fsub": return self.rnd(rsub(a, b), a, b)
        if op == "fmul": return self.rnd(rmul(a, b), a, b, True)
        if op == "fdiv": return self.rnd(self.fdiv(a, b), a, b, True)
        if op == "frem":
            if isnum(a) and isnum(b) and not special(a) and not special(b) and b != 0:
                return from_double(math.fmod(float(a), float(b)))
        raise Unsupported(op)

    # ------------------------------------------------------------------------------- control
    def call_name(self, name, args):
        return self.call_func(self.m.funcs[name], args)

    def call_addr(self, addr, args, t=None, pred=None, argtys=None):
        if addr is UNDEF: self.memerr("call through uninitialised pointer")
        if isinstance(addr, Node): raise Unsupported("symbolic function pointer")
        F = self.prog.fbyaddr.get(addr)
        if F is None: self.memerr("call through invalid function pointer")
        return self.call_func(F, args, t, pred, argtys)

    def call_func(self, F, args, t=None, pred=None, argtys=None):
        h = self.handlers.get(F.name)
        if h is None and F.name not in self.handlers:
            h = self.find_handler(F)
            self.handlers[F.name] = h
        if h is not None:
            self.cur_pred = pred; self.cur_ty = t; self.cur_argtys = argtys; self.cur_name = F.name
            return h(*args)
        if F.decl:
            raise Unsupported("external function " + F.name)
        self.funcs_seen.add(F.name)
        self.depth += 1
        if self.depth > 400: raise Unsupported("call depth")
        va = None
        if len(args) > F.nparams:
            va = (args[F.nparams:], argtys[F.nparams:] if argtys else None); args = args[:F.nparams]
        self.vastack.append(va)
        try:
            return self.exec_func(F, args)
        finally:
            self.depth -= 1; self.vastack.pop()

    def va_start(self, ap):
        # x86-64 va_list whose register areas are exhausted: every argument lies in the overflow area
        va = self.vastack[-1] or ([], [])
        a = self.alloc(8 * max(1, len(va[0])), "heap", "va_list"); o = self.objs[a >> SLOT]
        for i, (v, t) in enumerate(zip(*va)): self.store_at(o, i * 8, v, t)
        q, off = self.find(ap, 24, "write")
        for k, n, v in ((0, 4, 48), (4, 4, 176), (8, 8, a), (16, 8, 0)): self.put(q, off + k, (n, "i", v))

    def compile(self, F):
        self.m.decode(F)
        consts = []; cidx = {}
        base = F.nregs
        def idx(o):
            if o is None: return -1
            if o[0] == "r": return o[1]
            k = repr(o) if o[0] not in ("a", "z", "u", "e") else None
            if k is not None and k in cidx: return cidx[k]
            i = base + len(consts); consts.append(o)
            if k is not None: cidx[k] = i
            return i
        blocks = []
        for B in F.blocks:
            phis = [(d, {p: idx(o) for p, o in inc.items()}) for d, inc in B.phis]
            ins = []
            for I in B.insts:
                op = I[0]
                if op == "call": ins.append(("call", I[1], idx(I[2]), [idx(a) for a in I[3]], I[4], I[5], I[6]))
                elif op == "invoke": ins.append(("invoke", I[1], idx(I[2]), [idx(a) for a in I[3]], I[4], I[5], I[6], I[7].idx, I[8].idx))
                elif op in ("load", "aload"): ins.append((op, I[1], idx(I[2]), I[3]))
                elif op in ("store", "astore"): ins.append((op, idx(I[1]), idx(I[2]), I[3]))
                elif op == "gep": ins.append(("gep", I[1], idx(I[2]), I[3], [(idx(o), s) for o, s in I[4]]))
                elif op == "icmp": ins.append(("icmp", I[1], I[2], idx(I[3]), idx(I[4]), I[5]))
                elif op == "fcmp": ins.append(("fcmp", I[1], I[2], idx(I[3]), idx(I[4])))
                elif op == "ibin": ins.append(("ibin", I[1], I[2], idx(I[3]), idx(I[4]), I[5], I[6]))
                elif op == "fbin": ins.append(("fbin", I[1], I[2], idx(I[3]), idx(I[4]), I[5]))
                elif op == "fneg": ins.append(("fneg", I[1], idx(I[2]), I[3]))
                elif op == "cast": ins.append(("cast", I[1], I[2], idx(I[3]), I[4], I[5]))
                elif op == "select": ins.append(("select", I[1], idx(I[2]), idx(I[3]), idx(I[4]), I[5]))
                elif op == "br": ins.append(("br", idx(I[1]), I[2].idx, I[3].idx))
                elif op == "jmp": ins.append(("jmp", I[1].idx))
                elif op == "switch": ins.append(("switch", idx(I[1]), I[2].idx, [(v, b.idx) for v, b in I[3]], I[4]))
                elif op == "ret": ins.append(("ret", idx(I[1])))
                elif op == "alloca": ins.append(("alloca", I[1], I[2], idx(I[3])))
                elif op == "extractvalue": ins.append(("extractvalue", I[1], idx(I[2]), I[3]))
                elif op == "insertvalue": ins.append(("insertvalue", I[1], idx(I[2]), idx(I[3]), I[4], I[5]))
                elif op == "extractelement": ins.append(("extractelement", I[1], idx(I[2]), idx(I[3])))
                elif op == "insertelement": ins.append(("insertelement", I[1], idx(I[2]), idx(I[3]), idx(I[4]), I[5]))
                elif op == "shufflevector": ins.append(("shufflevector", I[1], idx(I[2]), idx(I[3]), I[4], I[5]))
                elif op == "resume": ins.append(("resume", idx(I[1])))
                elif op == "landingpad": ins.append(("landingpad", I[1], I[2], I[3]))
                elif op == "atomicrmw": ins.append(("atomicrmw", I[1], I[2], idx(I[3]), idx(I[4]), I[5]))
                elif op == "cmpxchg": ins.append(("cmpxchg", I[1], idx(I[2]), idx(I[3]), idx(I[4]), I[5]))
                else: ins.append(I)
            lp = None
            for I in ins:
                if I[0] == "landingpad": lp = I; break
            blocks.append((phis, ins, lp))
        r = (blocks, F.nregs, consts)
        self.prog.compiled[F.name] = r
        return r

    def exec_func(self, F, args):
        comp = self.prog.compiled.get(F.name) or self.compile(F)
        blocks, nregs, consts = comp
        tmpl = self.tmpl.get(F.name) if hasattr(self, "tmpl") and self.tmpl_objs is self.objs else None
        if tmpl is None:
            if not hasattr(self, "tmpl") or self.tmpl_objs is not self.objs: self.tmpl = {}; self.tmpl_objs = self.objs
            tmpl = [None] * nregs + [self.cval(c) for c in consts]
            self.tmpl[F.name] = tmpl
        R = tmpl[:]
        R[:len(args)] = args
        stack_objs = []
        prev = -1; cur = 0
        try:
            while True:
                phis, insts, lp = blocks[cur]
                if phis:
                    vals = [R[inc[prev]] for d, inc in phis]
                    for (d, inc), v in zip(phis, vals): R[d] = v
                self.steps += len(insts) + 1
                if self.steps > self.max_steps: raise PathEnd("steps", "step limit")
                for I in insts:
                    op = I[0]
                    if op == "call":
                        R[I[1]] = self.call_addr(R[I[2]], [R[a] for a in I[3]], I[4], I[5], I[6])
                    elif op == "load":
                        R[I[1]] = self.load(R[I[2]], I[3])
                    elif op == "gep":
                        p = R[I[2]]
                        if p is UNDEF: R[I[1]] = UNDEF; continue
                        a = p + I[3] if not isinstance(p, Node) else iadd(p, I[3])
                        for o, s in I[4]:
                            x = R[o]
                            if x is UNDEF: a = UNDEF; break
                            if isinstance(x, Node) or isinstance(a, Node): a = iadd(a, imul(s, x))
                            else: a += x * s
                        R[I[1]] = a
                    elif op == "store":
                        self.store(R[I[2]], R[I[1]], I[3])
                    elif op == "icmp":
                        R[I[1]] = self.icmp(I[2], R[I[3]], R[I[4]], I[5])
                    elif op == "br":
                        nxt = I[2] if self.decide(R[I[1]]) else I[3]
                        prev, cur = cur, nxt; break
                    elif op == "jmp":
                        prev, cur = cur, I[1]; break
                    elif op == "ret":
                        return R[I[1]] if I[1] >= 0 else None
                    elif op == "alloca":
                        n = R[I[3]]
                        a = self.alloc(I[2] * n, "stack"); stack_objs.append(a >> SLOT); R[I[1]] = a
                    elif op == "ibin":
                        x = R[I[3]]; y = R[I[4]]
                        if isinstance(x, list): R[I[1]] = [self.ibin(I[2], p, q, I[5] or 64, I[6]) for p, q in zip(x, y)]
                        else: R[I[1]] = self.ibin(I[2], x, y, I[5], I[6])
                    elif op == "fbin":
                        R[I[1]] = self.fbin(I[2], R[I[3]], R[I[4]])
                    elif op == "fneg":
                        v = R[I[2]]; R[I[1]] = [rneg(x) for x in v] if isinstance(v, list) else rneg(v)
                    elif op == "fcmp":
                        R[I[1]] = terms.fcmp(I[2], R[I[3]], R[I[4]])
                    elif op == "cast":
                        R[I[1]] = self.cast(I[2], R[I[3]], I[4], I[5])
                    elif op == "select":
                        R[I[1]] = R[I[3]] if self.decide(R[I[2]]) else R[I[4]]
                    elif op == "invoke":
                        try:
                            R[I[1]] = self.call_addr(R[I[2]], [R[a] for a in I[3]], I[4], I[5], I[6])
                            nxt = I[7]
                        except CxxThrow as e:
                            lpi = blocks[I[8]][2]
                            sel = self.match(lpi, e)
                            if sel is None: raise
                            self.exc_pending = (e, sel)
                            nxt = I[8]
                        prev, cur = cur, nxt; break
                    elif op == "landingpad":
                        e, sel = self.exc_pending
                        self.exc_obj = getattr(self, "exc_obj", {}); self.exc_obj[e.obj] = e
                        R[I[1]] = [e.obj, sel]
                    elif op == "resume":
                        v = R[I[1]]; raise CxxThrow(v[0], self.exc_obj[v[0]].ti)
                    elif op == "switch":
                        v = R[I[1]]
                        if isinstance(v, bool): v = int(v)
                        nxt = None
                        for cv, b in I[3]:
                            if isinstance(v, Node):
                                if self.decide(cmp("eq", v, cv)): nxt = b; break
                            elif v is UNDEF: self.decide(UNDEF)
                            elif v == cv: nxt = b; break
                        prev, cur = cur, (I[2] if nxt is None else nxt); break
                    elif op == "extractvalue":
                        v = R[I[2]]
                        for k in I[3]: v = v[k]
                        R[I[1]] = v
                    elif op == "insertvalue":
                        v = R[I[2]]
                        if v is UNDEF: v = self.undef_of(I[5])
                        R[I[1]] = self.insert(v, R[I[3]], I[4])
                    elif op == "extractelement":
                        R[I[1]] = R[I[2]][self.concretize(R[I[3]])]
                    elif op == "insertelement":
                        v = R[I[2]]
                        if v is UNDEF: v = self.undef_of(I[5])
                        v = list(v); v[self.concretize(R[I[4]])] = R[I[3]]; R[I[1]] = v
                    elif op == "shufflevector":
                        a = R[I[2]]; b = R[I[3]]; n = I[5].n
                        if a is UNDEF: a = [UNDEF] * n
                        if b is UNDEF: b = [UNDEF] * n
                        ab = list(a) + list(b)
                        R[I[1]] = [ab[k] if k >= 0 else UNDEF for k in I[4]]
                    elif op == "aload":
                        self.atomic = "a"; R[I[1]] = self.load(R[I[2]], I[3]); self.atomic = None
                    elif op == "astore":
                        self.atomic = "a"; self.store(R[I[2]], R[I[1]], I[3]); self.atomic = None
                    elif op == "atomicrmw":
                        R[I[1]] = self.atomicrmw(I[2], R[I[3]], R[I[4]], I[5])
                    elif op == "cmpxchg":
                        self.atomic = "a"
                        old = self.load(R[I[2]], I[5]); exp = R[I[3]]
                        if isinstance(old, Bits) and isinstance(exp, Bits): ok = old.v is exp.v
                        else: ok = self.decide(self.icmp("eq", old, exp, I[5].width or 64))
                        if ok: self.store(R[I[2]], R[I[4]], I[5])
                        self.atomic = None
                        R[I[1]] = [old, ok]
                    elif op == "unreachable":
                        raise PathEnd("unreachable", "unreachable code reached in " + F.name)
                    else:
                        raise Unsupported("instruction %s" % (I[:2],))
                else:
                    raise Unsupported("block without terminator")
        finally:
            for o in stack_objs:
                x = self.objs.get(o)
                if x is not None: x.freed = True; del self.objs[o]

    def insert(self, v, x, ix):
        v = list(v)
        if len(ix) == 1: v[ix[0]] = x
        else: v[ix[0]] = self.insert(v[ix[0]], x, ix[1:])
        return v

    def atomicrmw(self, op, addr, v, ty):
        self.atomic = "a"
        old = self.load(addr, ty)
        if op == 0: new = v
        elif op == 1: new = self.wrap(iadd(old, v), ty.width)
        elif op == 2: new = self.wrap(isub(old, v), ty.width)
        else: raise Unsupported("atomicrmw %d" % op)
        self.store(addr, new, ty)
        self.atomic = None
        return old

    # ------------------------------------------------------------------------------- C++ exceptions
    def match(self, lp, e):
        _, d, clauses, cleanup = lp
        for c in clauses:
            if c[0] == "i": return self.tid(0)      # catch (...)
            if c[0] in ("z", "a"):                   # filter: treat as not matching unless empty
                continue
            ti = self.cval(c)
            if self.subtype(e.ti, ti): return self.tid(ti)
        return 0 if cleanup else None
    def tid(self, ti):
        return self.tids.setdefault(ti, len(self.tids) + 1)
    def subtype(self, a, b):
        if a == b: return True
        an = self.objs[a >> SLOT].name if (a >> SLOT) in self.objs else ""
        bn = self.objs[b >> SLOT].name if (b >> SLOT) in self.objs else ""
        if an == bn: return True
        for base, _ in self.bases(a):
            if self.subtype(base, b): return True
        return False
    def bases(self, ti):
        o = self.objs.get(ti >> SLOT)
        if o is None: return []
        if o.name in ("_ZTISt13runtime_error", "_ZTISt11logic_error", "_ZTISt9bad_alloc"):
            x = self.gaddr.get("_ZTISt9exception"); return [(x, 0)] if x else []
        if o.name in ("_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt16invalid_argument"):
            x = self.gaddr.get("_ZTISt11logic_error") or self.gaddr.get("_ZTISt9exception"); return [(x, 0)] if x else []
        if 0 not in o.cells: return []
        vt = o.cells[0][2]
        vo = self.objs.get(vt >> SLOT)
        n = vo.name if vo else ""
        if "si_class_type_info" in n: return [(o.cells[16][2], 0)]
        if "vmi_class_type_info" in n:
            cnt = o.cells[20][2]; r = []
            for i in range(cnt):
                r.append((o.cells[24 + 16 * i][2], o.cells[32 + 16 * i][2] >> 8))
            return r
        return []
