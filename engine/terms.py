"""Term DAG of the symbolic executor.

Values are Python objects: real values are Fraction/int (exact) or Node of sort 'R'; machine
integers are int or Node of sort 'I' (mathematical integer with tracked range); truth values are
bool or Node of sort 'B'.  NAN marks the result of an undefined real operation (0/0, sqrt(-1), ...).
"""
from fractions import Fraction
import math

class _NaN:
    def __repr__(self): return "NaN"
NAN = _NaN()
class _Undef:
    def __repr__(self): return "UNDEF"
UNDEF = _Undef()

class Node:
    __slots__ = ("op", "a", "sort", "id", "lo", "hi", "rf", "ev", "evg")
    def __repr__(self): return show(self)

_table = {}
_nodes = []

def _key(x):
    if isinstance(x, Node): return ("#", x.id)
    return x

def mk(op, sort, *a, lo=None, hi=None):
    k = (op, sort) + tuple(_key(x) for x in a)
    n = _table.get(k)
    if n is None:
        n = Node(); n.op = op; n.a = a; n.sort = sort; n.id = len(_nodes); n.lo = lo; n.hi = hi; n.rf = None; n.ev = None; n.evg = -1
        _table[k] = n; _nodes.append(n)
    return n

def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, Fraction): return repr(float(n)) if n.denominator != 1 else str(n.numerator)
        return str(n)
    if n.op in ("var", "ivar", "bvar"): return n.a[0]
    if depth == 0: return "..."
    return "(" + n.op + " " + " ".join(show(x, depth - 1) if not isinstance(x, str) else x for x in n.a) + ")"

def isnum(x): return not isinstance(x, Node)

_dcache = {}
def from_double(d):
    r = _dcache.get(d)
    if r is None:
        if d != d or d in (math.inf, -math.inf): r = NAN if d != d else (INF if d > 0 else NINF)
        else:
            f = Fraction(repr(d)); r = f.numerator if f.denominator == 1 else f
        _dcache[d] = r
    return r
class _Inf:
    def __init__(self, s): self.s = s
    def __repr__(self): return "inf" if self.s > 0 else "-inf"
INF = _Inf(1); NINF = _Inf(-1)
SPECIAL = (NAN, INF, NINF, UNDEF)
def special(x): return x is NAN or x is INF or x is NINF or x is UNDEF

ROUND = 0      # significant bits of roots of numbers (0: kept exact); set by a harness that compares with a tolerance
def _n(x):
    # numeric normalisation
    if isinstance(x, Fraction) and x.denominator == 1: return x.numerator
    if ROUND and isinstance(x, Fraction) and x.denominator.bit_length() > 2 * ROUND:
        k = ROUND - x.numerator.bit_length() + x.denominator.bit_length()
        if k <= 0: return x
        x = Fraction(round(x * (1 << k)), 1 << k); return x.numerator if x.denominator == 1 else x
    if isinstance(x, Fraction) and (x.denominator.bit_length() > 3000):
        return from_double(float(x))
    return x

# ------------------------------------------------------------------ reals
def rvar(name): return mk("var", "R", name)

def radd(a, b):
    if special(a) or special(b): return sp_add(a, b)
    if isnum(a):
        if isnum(b): return _n(a + b)
        if a == 0: return b
        a, b = b, a
    if isnum(b):
        if b == 0: return a
        if a.op == "add" and isnum(a.a[1]): return radd(a.a[0], a.a[1] + b)
        return mk("add", "R", a, b)
    if a is b: return rmul(2, a)
    if b.op == "mul" and b.a[0] == -1 and b.a[1] is a: return 0
    if a.op == "mul" and a.a[0] == -1 and a.a[1] is b: return 0
    for u, v in ((a, b), (b, a)):
        if u.op == "add" and isinstance(u.a[1], Node):
            for i in (0, 1):
                w = u.a[i]
                if v.op == "mul" and v.a[0] == -1 and v.a[1] is w or w.op == "mul" and w.a[0] == -1 and w.a[1] is v: return u.a[1 - i]
    if a.id > b.id: a, b = b, a
    return mk("add", "R", a, b)

def sp_add(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is NAN or b is NAN: return NAN
    if a in (INF, NINF):
        if b in (INF, NINF) and a is not b: return NAN
        return a
    return b
def sp_mul(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is NAN or b is NAN: return NAN
    sa = a.s if isinstance(a, _Inf) else None; sb = b.s if isinstance(b, _Inf) else None
    if sa is not None and sb is not None: return INF if sa * sb > 0 else NINF
    o = b if sa is not None else a; s = sa if sa is not None else sb
    if isinstance(o, Node): return NAN
    if o == 0: return NAN
    return INF if (o > 0) == (s > 0) else NINF

def rneg(a):
    if a is UNDEF or a is NAN: return a
    if a is INF: return NINF
    if a is NINF: return INF
    if isnum(a): return -a
    return rmul(-1, a)

def rsub(a, b): return radd(a, rneg(b))

def rmul(a, b):
    if special(a) or special(b): return sp_mul(a, b)
    if isnum(a) and isnum(b): return _n(a * b)
    if isnum(b): a, b = b, a
    if isnum(a):
        if a == 0: return 0
        if a == 1: return b
        if b.op == "mul" and isnum(b.a[0]): return rmul(_n(a * b.a[0]), b.a[1])
        return mk("mul", "R", a, b)
    if a.op == "mul" and isnum(a.a[0]): return rmul(a.a[0], rmul(a.a[1], b))
    if b.op == "mul" and isnum(b.a[0]): return rmul(b.a[0], rmul(a, b.a[1]))
    if a.op == "sqrt" and a is b: return a.a[0]
    if a.id > b.id: a, b = b, a
    return mk("mul", "R", a, b)

def rdiv(a, b):
    if special(a) or special(b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if a is NAN or b is NAN: return NAN
        if isinstance(b, _Inf): return NAN if isinstance(a, _Inf) else 0
        if isinstance(b, Node): return NAN
        if b == 0: return a
        return a if b > 0 else rneg(a)
    if isnum(b):
        if b == 0: return NAN
        if isnum(a): return _n(Fraction(a) / b)
        return rmul(_n(Fraction(1) / b), a)
    if isnum(a):
        if a == 0: return 0
    elif a is b: return 1
    if isinstance(a, Node) and a.op == "mul" and isnum(a.a[0]): return rmul(a.a[0], rdiv(a.a[1], b))
    if b.op == "mul" and isnum(b.a[0]): return rmul(_n(Fraction(1) / b.a[0]), rdiv(a, b.a[1]))
    return mk("div", "R", a, b)

def _isqrt(n):
    r = math.isqrt(n); return r if r * r == n else None

def rsqrt(a):
    if special(a): return NAN if a is NINF else a
    if isnum(a):
        if a < 0: return NAN
        f = Fraction(a); p = _isqrt(f.numerator); q = _isqrt(f.denominator)
        if p is not None and q is not None: return _n(Fraction(p, q))
        if ROUND:
            k = 2 * ROUND + f.denominator.bit_length() - f.numerator.bit_length(); k += k & 1
            return Fraction(math.isqrt((f.numerator << k) // f.denominator), 1 << (k // 2)) if k > 0 else mk("sqrt", "R", a)
        return mk("sqrt", "R", a)
    return mk("sqrt", "R", a)

def rfn(name, *args):
    for x in args:
        if special(x): return NAN
    if all(isnum(x) for x in args):
        x = args[0]
        if x == 0:
            if name in ("sin", "sinh", "tan", "tanh", "asin", "atan"): return 0
            if name in ("cos", "cosh", "exp"): return 1
        if name == "log" and x == 1: return 0
    return mk("fn", "R", name, *args)

def toreal(i):
    if i is UNDEF: return UNDEF
    if isnum(i): return i
    return mk("toreal", "R", i)

# ------------------------------------------------------------------ integers
def ivar(name, lo, hi): 
    n = mk("ivar", "I", name, lo=lo, hi=hi); n.lo = lo; n.hi = hi; return n
def ilo(x): return x if isnum(x) else x.lo
def ihi(x): return x if isnum(x) else x.hi
def iadd(a, b):
    if isnum(a) and isnum(b): return a + b
    if isnum(a): a, b = b, a
    if isnum(b) and b == 0: return a
    if isnum(b) and a.op == "iadd" and isnum(a.a[1]): return iadd(a.a[0], a.a[1] + b)
    lo = None if ilo(a) is None or ilo(b) is None else ilo(a) + ilo(b)
    hi = None if ihi(a) is None or ihi(b) is None else ihi(a) + ihi(b)
    if not isnum(b) and a.id > b.id: a, b = b, a
    return mk("iadd", "I", a, b, lo=lo, hi=hi)
def imul(a, b):
    if isnum(a) and isnum(b): return a * b
    if isnum(b): a, b = b, a
    if isnum(a):
        if a == 0: return 0
        if a == 1: return b
        if b.op == "imul" and isnum(b.a[0]): return imul(a * b.a[0], b.a[1])
    lo = hi = None
    if None not in (ilo(a), ilo(b), ihi(a), ihi(b)):
        c = [ilo(a) * ilo(b), ilo(a) * ihi(b), ihi(a) * ilo(b), ihi(a) * ihi(b)]; lo = min(c); hi = max(c)
    if not isnum(a) and a.id > b.id: a, b = b, a
    return mk("imul", "I", a, b, lo=lo, hi=hi)
def isub(a, b):
    if a is b: return 0
    return iadd(a, imul(-1, b))
def ifdiv(a, c):
    "floor division by a positive constant (or a term known to be positive)"
    if isinstance(c, Node): return mk("idiv", "I", a, c, lo=0 if not isnum(a) and a.lo is not None and a.lo >= 0 or isnum(a) and a >= 0 else None, hi=a.hi if not isnum(a) else a)
    if isnum(a): return a // c
    if c == 1: return a
    return mk("idiv", "I", a, c, lo=None if a.lo is None else a.lo // c, hi=None if a.hi is None else a.hi // c)
def ifmod(a, c):
    if isinstance(c, Node): return mk("imod", "I", a, c, lo=0, hi=c.hi)
    if isnum(a): return a % c
    if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < c: return a
    return mk("imod", "I", a, c, lo=0, hi=c - 1)
def ifloor(x):
    "mathematical floor of a real as integer"
    if special(x): return UNDEF
    if isnum(x): return math.floor(x)
    if x.op == "toreal": return x.a[0]
    if x.op == "add" and isnum(x.a[1]) and Fraction(x.a[1]).denominator == 1: return iadd(ifloor(x.a[0]), x.a[1])
    return mk("floor", "I", x)

# ------------------------------------------------------------------ booleans
def bnot(a):
    if isinstance(a, bool): return not a
    if a is UNDEF: return UNDEF
    if a.op == "not": return a.a[0]
    return mk("not", "B", a)
def band(a, b):
    if a is UNDEF or b is UNDEF:
        if a is False or b is False: return False
        return UNDEF
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    if a is b: return a
    return mk("and", "B", a, b)
def bor(a, b):
    if a is UNDEF or b is UNDEF:
        if a is True or b is True: return True
        return UNDEF
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    if a is b: return a
    return mk("or", "B", a, b)
def cmp(op, a, b):
    """op in lt, le, eq on reals or ints"""
    if isnum(a) and isnum(b):
        return a < b if op == "lt" else a <= b if op == "le" else a == b
    if a is b: return op != "lt"
    if op == "eq" and (isnum(a) or (not isnum(b) and a.id > b.id)): a, b = b, a
    # a floor compared with an integer constant becomes a real comparison
    fa, fb = _lin_floor(a), _lin_floor(b)
    if fa is not None and isnum(b): 
        r = _cmp_floor(op, fa, b, False)
        if r is not None: return r
    if fb is not None and isnum(a):
        r = _cmp_floor(op, fb, a, True)
        if r is not None: return r
    # ranges of integers
    s = (a if not isnum(a) else b).sort
    if s == "I":
        la, ha, lb, hb = ilo(a), ihi(a), ilo(b), ihi(b)
        if op == "lt":
            if ha is not None and lb is not None and ha < lb: return True
            if la is not None and hb is not None and la >= hb: return False
        if op == "le":
            if ha is not None and lb is not None and ha <= lb: return True
            if la is not None and hb is not None and la > hb: return False
        if op == "eq":
            if (ha is not None and lb is not None and ha < lb) or (la is not None and hb is not None and la > hb): return False
    return mk(op, "B", a, b)

def _lin_floor(n):
    "n = k*floor(x) + c with k = +-1  ->  (k, x, c)"
    if not isinstance(n, Node) or n.sort != "I": return None
    if n.op == "floor": return (1, n.a[0], 0)
    if n.op == "iadd" and isnum(n.a[1]):
        r = _lin_floor(n.a[0])
        return None if r is None else (r[0], r[1], r[2] + n.a[1])
    if n.op == "imul" and n.a[0] == -1:
        r = _lin_floor(n.a[1])
        return None if r is None else (-r[0], r[1], -r[2])
    return None

def _cmp_floor(op, f, c, swapped):
    k, x, d = f
    v = c - d
    # k*floor(x) op v  (or v op k*floor(x))
    if k < 0: v = -v; swapped = not swapped
    if op == "eq": return band(cmp("le", v, x), cmp("lt", x, v + 1))
    if not swapped:
        if op == "lt": return cmp("lt", x, v)
        return cmp("lt", x, v + 1)
    if op == "lt": return cmp("le", v + 1, x)
    return cmp("le", v, x)

def fcmp(pred, a, b):
    "LLVM fcmp on real values (NAN aware)"
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is NAN or b is NAN:
        return pred in ("uno", "ueq", "une", "ult", "ule", "ugt", "uge", "true")
    if isinstance(a, _Inf) or isinstance(b, _Inf):
        if isinstance(a, _Inf) and isinstance(b, _Inf): x, y = a.s, b.s
        elif isinstance(a, _Inf): x, y = a.s, 0
        else: x, y = 0, b.s
        p = pred[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "rd": True, "no": False}[p]
    if pred in ("uno", "false"): return False
    if pred in ("ord", "true"): return True
    p = pred[1:]
    if p == "eq": return cmp("eq", a, b)
    if p == "ne": return bnot(cmp("eq", a, b))
    if p == "lt": return cmp("lt", a, b)
    if p == "le": return cmp("le", a, b)
    if p == "gt": return cmp("lt", b, a)
    if p == "ge": return cmp("le", b, a)
    raise NotImplementedError(pred)

# ------------------------------------------------------------------ numeric evaluation
_gen = [0]
class EvalError(Exception): pass
_FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "sinh": math.sinh, "cosh": math.cosh,
       "tanh": math.tanh, "atan": math.atan, "asin": math.asin, "acos": math.acos, "atan2": math.atan2, "pow": math.pow, "log10": math.log10,
       "erf": math.erf, "cbrt": math.cbrt}

def hashreal(name, args):
    "a fixed pseudo-random smooth interpretation for uninterpreted functions; mirrored in vf.h"
    s = 0.0
    for i, a in enumerate(args): s += (i * 0.37 + 0.61) * a
    h = 0.0
    for ch in name: h = math.fmod(h * 31.0 + ord(ch), 997.0)
    return math.sin(1.3 * s + h) * (1.0 + 0.25 * math.cos(0.7 * s - h)) + 0.1 * h / 997.0

class Evaluator:
    """evaluates nodes under an assignment name -> number using floats (ints exact)"""
    def __init__(self, asg):
        self.asg = asg; self.memo = {}
    def ev(self, root):
        if not isinstance(root, Node):
            if special(root): raise EvalError("special")
            return root
        memo = self.memo
        if root.id in memo: return memo[root.id]
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in memo: stack.pop(); continue
            todo = [x for x in n.a if isinstance(x, Node) and x.id not in memo]
            if todo: stack.extend(todo); continue
            memo[n.id] = self._one(n); stack.pop()
        return memo[root.id]
    def _one(self, n):
        op = n.op; memo = self.memo
        v = [memo[x.id] if isinstance(x, Node) else x for x in n.a]
        try:
            if op in ("var", "ivar", "bvar"):
                r = self.asg[v[0]]
                if op == "var": return float(r)
                return r
            if op == "add": return float(v[0]) + float(v[1])
            if op == "mul": return float(v[0]) * float(v[1])
            if op == "div": return float(v[0]) / float(v[1])
            if op == "sqrt":
                x = float(v[0])
                if x < 0: raise EvalError("sqrt")
                return math.sqrt(x)
            if op == "fn":
                f = _FN.get(v[0])
                if f is None: return hashreal(v[0], [float(x) for x in v[1:]])
                return f(*[float(x) for x in v[1:]])
            if op == "toreal": return float(v[0])
            if op == "iadd": return v[0] + v[1]
            if op == "imul": return v[0] * v[1]
            if op == "idiv": return v[0] // v[1]
            if op == "imod": return v[0] % v[1]
            if op == "floor":
                x = v[0]; k = round(x)
                if isinstance(x, float) and abs(x - k) <= 1e-9 * max(1.0, abs(x)): return self.tie(n.a[0], k)
                return math.floor(x)
            if op == "lt": return v[0] < v[1]
            if op == "le": return v[0] <= v[1]
            if op == "eq":
                return v[0] == v[1]
            if op == "not": return not v[0]
            if op == "and": return v[0] and v[1]
            if op == "or": return v[0] or v[1]
        except (ZeroDivisionError, OverflowError, ValueError, KeyError) as e:
            raise EvalError(str(e))
        raise NotImplementedError(op)

def _tie(self, arg, k):
    "floor of a value that doubles cannot tell from an integer"
    h = getattr(self, "hp", None)
    if h is None: h = self.hp = HPEvaluator(self.asg)
    import mpmath
    with mpmath.workdps(60):
        y = h.ev(arg)
        y = mpmath.mpf(y.numerator) / y.denominator if isinstance(y, Fraction) else mpmath.mpf(y)
        k = int(mpmath.nint(y))
        return k if abs(y - k) <= mpmath.mpf(10) ** -40 * max(1, abs(y)) else int(mpmath.floor(y))
Evaluator.tie = _tie

class HPEvaluator(Evaluator):
    "60 digit evaluation, used where cancellation makes doubles meaningless"
    def _one(self, n):
        import mpmath
        op = n.op
        memo = self.memo
        if op in ("lt", "le", "eq"):
            with mpmath.workdps(60):
                l, r = [memo[x.id] if isinstance(x, Node) else x for x in n.a]
                l, r = [mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x for x in (l, r)]
                return l < r if op == "lt" else l <= r if op == "le" else l == r
        if op not in ("var", "add", "mul", "div", "sqrt", "fn", "toreal", "floor"): return Evaluator._one(self, n)
        def cv(x):
            if isinstance(x, Fraction): return mpmath.mpf(x.numerator) / x.denominator
            return x if isinstance(x, str) else mpmath.mpf(x)
        with mpmath.workdps(60):
            try:
                v = [cv(memo[x.id]) if isinstance(x, Node) else cv(x) if op != "var" else x for x in n.a]
                if op == "var": return cv(self.asg[v[0]])
                if op == "add": return v[0] + v[1]
                if op == "mul": return v[0] * v[1]
                if op == "div": return v[0] / v[1]
                if op == "sqrt":
                    if v[0] < 0: raise EvalError("sqrt")
                    return mpmath.sqrt(v[0])
                if op == "toreal": return v[0]
                if op == "floor":
                    k = int(mpmath.nint(v[0])); return k if abs(v[0] - k) <= mpmath.mpf(10) ** -40 * max(1, abs(k)) else int(mpmath.floor(v[0]))
                if v[0] in ("sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "atan", "asin", "acos", "atan2", "erf"):
                    r = getattr(mpmath, v[0])(*v[1:])
                    if isinstance(r, mpmath.mpc): raise EvalError("complex")
                    return r
                if v[0] == "pow":
                    r = mpmath.power(v[1], v[2])
                    if isinstance(r, mpmath.mpc): raise EvalError("complex")
                    return r
                return Evaluator._one(self, n)
            except (ZeroDivisionError, OverflowError, ValueError, KeyError) as e: raise EvalError(str(e))

def evaluate(n, asg): return Evaluator(asg).ev(n)

# ------------------------------------------------------------------ derivative
def diff(root, var, memo=None):
    if memo is None: memo = {}
    if not isinstance(root, Node): return 0
    stack = [root]
    while stack:
        n = stack[-1]
        if n.id in memo: stack.pop(); continue
        kids = [x for x in n.a if isinstance(x, Node) and x.id not in memo]
        if kids: stack.extend(kids); continue
        d = [memo[x.id] if isinstance(x, Node) else 0 for x in n.a]
        op = n.op; a = n.a
        if op == "var": r = 1 if n is var else 0
        elif op in ("toreal", "ivar", "floor"): r = 0
        elif op == "add": r = radd(d[0], d[1])
        elif op == "mul": r = radd(rmul(d[0], a[1]), rmul(a[0], d[1]))
        elif op == "div": r = rsub(rdiv(d[0], a[1]), rdiv(rmul(a[0], d[1]), rmul(a[1], a[1]))) if not (isinstance(d[1], int) and d[1] == 0) else rdiv(d[0], a[1])
        elif op == "sqrt": r = rdiv(d[0], rmul(2, n)) if not (isnum(d[0]) and d[0] == 0) else 0
        elif op == "fn":
            f = a[0]; x = a[1] if len(a) > 1 else 0; dx = d[1] if len(d) > 1 else 0
            if len(a) == 2:
                if isnum(dx) and dx == 0: r = 0
                elif f == "sin": r = rmul(rfn("cos", x), dx)
                elif f == "cos": r = rneg(rmul(rfn("sin", x), dx))
                elif f == "exp": r = rmul(n, dx)
                elif f == "sinh": r = rmul(rfn("cosh", x), dx)
                elif f == "cosh": r = rmul(rfn("sinh", x), dx)
                elif f == "tan": r = rmul(radd(1, rmul(n, n)), dx)
                elif f == "tanh": r = rmul(rsub(1, rmul(n, n)), dx)
                elif f == "log": r = rdiv(dx, x)
                elif f == "atan": r = rdiv(dx, radd(1, rmul(x, x)))
                else: raise NotImplementedError("derivative of " + f)
            elif all(isnum(z) and z == 0 for z in d[1:]): r = 0
            elif f == "atan2":
                den = radd(rmul(a[1], a[1]), rmul(a[2], a[2]))
                r = rdiv(rsub(rmul(d[1], a[2]), rmul(a[1], d[2])), den)
            elif f == "pow" and isnum(d[2]) and d[2] == 0:
                r = rmul(rmul(a[2], rfn("pow", a[1], rsub(a[2], 1))), d[1])
            else: raise NotImplementedError("derivative of " + f)
        else: r = 0
        memo[n.id] = r; stack.pop()
    return memo[root.id]
