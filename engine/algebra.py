"""Polynomial normal forms of real terms.

A real term is brought into the form  P * prod f_i^e_i  with P a polynomial over atoms (inputs, square
roots, transcendental function values ...) with rational coefficients, reduced modulo s^2 = radicand,
sin^2 = 1 - cos^2 and sinh^2 = cosh^2 - 1.  Comparisons are handed to the SMT solver in this form; the
solver decides the resulting polynomial constraints."""
from fractions import Fraction
import z3
from terms import *
import terms

W = 12                       # bits per exponent in a packed monomial
MASK = (1 << W) - 1
LIMIT = 60000

class TooBig(Exception): pass

class Atom:
    __slots__ = ("i", "kind", "key", "info", "z", "positive", "nonneg", "reduce2", "name")

atoms = []
_atab = {}
reducible = []               # list of (shift, atom index) for atoms with a rewrite rule of their square

def atom(kind, key, info=None, positive=False, nonneg=False, sort="R", name=None):
    k = (kind, key)
    a = _atab.get(k)
    if a is None:
        a = Atom(); a.i = len(atoms); a.kind = kind; a.key = key; a.info = info; a.positive = positive; a.nonneg = nonneg or positive
        a.reduce2 = None; a.name = name or "%s%d" % (kind, a.i)
        a.z = z3.Real(a.name) if sort == "R" else z3.Int(a.name)
        atoms.append(a); _atab[k] = a
    return a

def mono(i, e=1): return e << (W * i)
def mono_items(m):
    r = []; i = 0
    while m:
        # skip zero fields quickly
        low = (m & -m).bit_length() - 1
        sk = low // W
        i += sk; m >>= W * sk
        e = m & MASK
        if e: r.append((i, e))
        m >>= W; i += 1
    return r

def pc(c): return {0: c} if c != 0 else {}
def padd(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v = v + c
            if v == 0: del r[m]
            else: r[m] = v
    return r
def pscale(p, c):
    if c == 0: return {}
    if c == 1: return p
    return {m: _n(v * c) for m, v in p.items()}
def _n(x):
    if isinstance(x, Fraction) and x.denominator == 1: return x.numerator
    return x
def pmul(p, q):
    if len(p) > len(q): p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if m == 0: return pscale(q, c)
        if c == 1: r = {m + n: d for n, d in q.items()}
        else: r = {m + n: _n(c * d) for n, d in q.items()}
        return preduce(r)
    if len(p) * len(q) > 40 * LIMIT: raise TooBig()
    r = {}
    get = r.get
    for m, c in p.items():
        for n, d in q.items():
            k = m + n
            v = get(k)
            r[k] = c * d if v is None else v + c * d
    r = {m: _n(c) for m, c in r.items() if c != 0}
    r = preduce(r)
    if len(r) > LIMIT: raise TooBig()
    return r

def preduce(p):
    if not reducible: return p
    for i in reversed(reducible):
        sh = W * i
        m2 = MASK ^ 1
        hit = None
        for m in p:
            if (m >> sh) & m2:
                hit = True; break
        if not hit: continue
        groups = {}; rest = {}
        for m, c in p.items():
            e = (m >> sh) & MASK
            if e >= 2:
                k = e >> 1
                groups.setdefault(k, {})[m - ((2 * k) << sh)] = c
            else: rest[m] = c
        base = atoms[i].reduce2
        out = rest
        pw = {}
        for k in sorted(groups):
            b = ppow(base, k)
            out = padd(out, pmul(groups[k], b))
        return preduce(out)
    return p

def ppow(p, k):
    r = {0: 1}
    b = p
    while k:
        if k & 1: r = pmul(r, b)
        k >>= 1
        if k: b = pmul(b, b)
    return r

# ---- factors
factors = []      # id -> poly
_ftab = {}
def pkey(p): return frozenset(p.items())
def factor_of(p):
    "returns (constant, factor id) with p = constant * factor"
    lead = max(p)
    c = p[lead]
    q = p if c == 1 else {m: _n(Fraction(v) / c) for m, v in p.items()}
    k = pkey(q)
    f = _ftab.get(k)
    if f is None:
        f = len(factors); factors.append(q); _ftab[k] = f
    return c, f

# ---- exact division
_pt = {}
def _point(i):
    v = _pt.get(i)
    if v is None: v = _pt[i] = 10007 + 7919 * i * i + 104729 * i
    return v
def _ieval(p):
    den = 1
    for c in p.values():
        if isinstance(c, Fraction): den = den * c.denominator // _gcd(den, c.denominator)
    t = 0
    for m, c in p.items():
        v = int(c * den)
        for i, e in mono_items(m): v *= _point(i) ** e
        t += v
    return t, den
from math import gcd as _gcd
_fval = {}
def divexact(P, Q):
    "P / Q for polynomials or None"
    lq = max(Q); cq = Q[lq]; qi = mono_items(lq)
    rest = [(m, c) for m, c in Q.items() if m != lq]
    d = dict(P); out = {}
    import heapq
    heap = [-m for m in d]; heapq.heapify(heap)
    for _ in range(20000):
        while heap and -heap[0] not in d: heapq.heappop(heap)
        if not heap: return out
        l = -heap[0]; c = d.pop(l)
        for i, e in qi:
            if ((l >> (W * i)) & MASK) < e: return None
        q = l - lq; t = _n(Fraction(c) / cq); out[q] = t
        for m, cc in rest:
            k = m + q; o = d.get(k)
            if o is None: d[k] = _n(-t * cc); heapq.heappush(heap, -k)
            else:
                v = o - t * cc
                if v == 0: del d[k]
                else: d[k] = _n(v)
    return None
def cancel(x):
    "removes denominators that divide the numerator"
    P, F = x
    if not P or not F or len(P) > 3000: return x
    out = []; pv = None
    for f, e in F:
        Q = factors[f]
        while e < 0 and len(Q) > 1 and len(P) > 1:
            if pv is None: pv = _ieval(P)
            qv = _fval.get(f)
            if qv is None: qv = _fval[f] = _ieval(Q)
            if qv[0] == 0 or (pv[0] * qv[1] ** 8) % qv[0]: break
            R = divexact(P, Q)
            if R is None: break
            P = R; e += 1; pv = None
        if e: out.append((f, e))
    return norm_f(P, tuple(out))
def split(P):
    "known factors of a polynomial that becomes a denominator: (rest, [(f, e)])"
    if len(P) > 400: return P, []
    out = []; vs = 0
    for m in P: vs |= m
    vset = {i for i, e in mono_items(vs)}
    pv = _ieval(P)
    for f in range(len(factors)):
        Q = factors[f]
        if len(Q) < 2 or len(Q) >= len(P) * 3 or len(Q) > 60: continue
        if any(i not in vset for m in Q for i, e in mono_items(m)): continue
        qv = _fval.get(f)
        if qv is None: qv = _fval[f] = _ieval(Q)
        e = 0
        while len(P) > 1 and qv[0] and (pv[0] * qv[1] ** 8) % qv[0] == 0:
            R = divexact(P, Q)
            if R is None: break
            P = R; e += 1; pv = _ieval(P)
        if e: out.append((f, e))
        if len(P) == 1: break
    return P, out

ZERO = ({}, ())
def rf_const(c): return (pc(c), ())
ONE = rf_const(1)

def _fmerge(F, G):
    if not F: return G
    if not G: return F
    d = dict(F)
    for f, e in G:
        v = d.get(f, 0) + e
        if v: d[f] = v
        else: d.pop(f, None)
    return tuple(sorted(d.items()))

def rf_mul(x, y):
    P, F = x; Q, G = y
    if not P or not Q: return ZERO
    # cancel numerators that are known factors of the other's denominator
    if len(P) > 1 and G:
        c, f = _peek(P)
        if f is not None and dict(G).get(f, 0) < 0:
            P = pc(c); G = _fmerge(G, ((f, 1),))
    if len(Q) > 1 and F:
        c, f = _peek(Q)
        if f is not None and dict(F).get(f, 0) < 0:
            Q = pc(c); F = _fmerge(F, ((f, 1),))
    if G: P, G = norm_f(P, G)
    if F: Q, F = norm_f(Q, F)
    return norm_f(pmul(P, Q), _fmerge(F, G))

def _peek(p):
    lead = max(p); c = p[lead]
    q = p if c == 1 else {m: _n(Fraction(v) / c) for m, v in p.items()}
    return c, _ftab.get(pkey(q))

def norm_f(P, F):
    if not P: return ZERO
    # cancel single-atom factors with monomials of P
    if F:
        out = []
        for f, e in F:
            fp = factors[f]
            if len(fp) == 1 and e < 0:
                (m, c), = fp.items()
                its = mono_items(m)
                if len(its) == 1 and its[0][1] == 1:
                    sh = W * its[0][0]
                    k = min(((mm >> sh) & MASK) for mm in P)
                    k = min(k, -e)
                    if k:
                        P = {mm - (k << sh): cc for mm, cc in P.items()}; e += k
                        if e == 0: continue
            out.append((f, e))
        F = tuple(out)
    return (P, F)

def fpow(F_id, e):
    return ppow(factors[F_id], e)

def rf_add(x, y):
    P, F = x; Q, G = y
    if not P: return y
    if not Q: return x
    if F == G: return norm_f(padd(P, Q), F)
    dF = dict(F); dG = dict(G); common = []
    for f in set(dF) | set(dG):
        a = dF.get(f, 0); b = dG.get(f, 0); m = min(a, b)
        if a > m: P = pmul(P, fpow(f, a - m))
        if b > m: Q = pmul(Q, fpow(f, b - m))
        if m: common.append((f, m))
    return norm_f(padd(P, Q), tuple(sorted(common)))

def rf_inv(x):
    P, F = x
    if not P: raise ZeroDivisionError()
    inv = tuple((f, -e) for f, e in F)
    # positive powers of factors that became numerators are expanded lazily as factors
    if len(P) == 1:
        (m, c), = P.items()
        r = (pc(_n(Fraction(1) / c)), inv)
        for i, e in mono_items(m):
            c1, f = factor_of({mono(i): 1})
            r = (r[0], _fmerge(r[1], ((f, -e),)))
            r = norm_f(*r)
        return expand_pos(r)
    c, f = _peek(P)
    if f is None:
        P, known = split(P)
        for g, e in known: inv = _fmerge(inv, ((g, -e),))
        if known and len(P) == 1: return rf_mul(rf_inv((P, ())), expand_pos((pc(1), inv)))
        q = poly_sqrt(P) if len(P) <= 60 and not any(atoms[i].reduce2 is not None for m in P for i, e in mono_items(m)) else None
        if q is not None and len(q) > 1:
            c, f = factor_of(q); return expand_pos((pc(_n(Fraction(1) / (Fraction(c) * c))), _fmerge(inv, ((f, -2),))))
        c, f = factor_of(P)
    return expand_pos((pc(_n(Fraction(1) / c)), _fmerge(inv, ((f, -1),))))

def expand_pos(x):
    "expand factors with positive exponents into the polynomial"
    P, F = x
    out = []
    for f, e in F:
        if e > 0: P = pmul(P, fpow(f, e))
        else: out.append((f, e))
    return norm_f(P, tuple(out))

# ---- positivity (syntactic)
def mono_nonneg(m):
    for i, e in mono_items(m):
        if e & 1 and not atoms[i].nonneg: return False
    return True
def mono_pos(m):
    for i, e in mono_items(m):
        if not atoms[i].positive: return False
    return True
def poly_sign(p):
    """returns 1 if p>0 for sure, -1 if p<0, 2 if p>=0, -2 if p<=0, 0 unknown; syntactic"""
    if not p: return 2
    pos = neg = True; strict = False
    for m, c in p.items():
        if not mono_nonneg(m): return 0
        if c < 0: pos = False
        else: neg = False
        if mono_pos(m): strict = True
    if pos: return 1 if strict else 2
    if neg: return -1 if strict else -2
    return 0

# ---- square roots
def poly_sqrt(p):
    "exact polynomial square root (up to sign) or None; only for polynomials without reducible atoms"
    if not p: return {}
    lead = max(p)
    for i, e in mono_items(lead):
        if e & 1: return None
    c = Fraction(p[lead])
    a = terms._isqrt(c.numerator) if c > 0 else None; b = terms._isqrt(c.denominator) if c > 0 else None
    if a is None or b is None: return None
    c0 = _n(Fraction(a, b)); m0 = 0
    for i, e in mono_items(lead): m0 += mono(i, e >> 1)
    r = {m0: c0}
    d = dict(p); del d[lead]          # remainder p - r^2
    need = mono_items(m0)
    if len(p) > 6000: return None
    for _ in range(len(p) + 4):
        if not d: return r
        dl = max(d)
        q = dl - m0
        if q < 0: return None
        for i, e in need:
            if ((dl >> (W * i)) & MASK) < e: return None
        if q in r or q >= min(r): return None
        t = _n(Fraction(d[dl]) / (2 * c0))
        for m, c in r.items():
            k = m + q; v = d.get(k, 0) - 2 * c * t
            if v == 0: d.pop(k, None)
            else: d[k] = _n(v)
        k = q + q; v = d.get(k, 0) - t * t
        if v == 0: d.pop(k, None)
        else: d[k] = _n(v)
        r[q] = t
    return None
def pmul_raw(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = m + n; v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = _n(v)
    return r

def rf_root(x, limit=4000):
    "(P, F) with x = (P,F)^2 if x is the square of a rational function without reducible atoms, else None"
    P, F = x
    if not P or len(P) > limit: return None
    odd = [f for f, e in F if e % 2]
    try:
        for f in odd: P = pmul(P, factors[f])
    except TooBig: return None
    if len(P) > limit: return None
    for m in P:
        for i, e in mono_items(m):
            if atoms[i].reduce2 is not None: return None
    q = poly_sqrt(P)
    if q is None: return None
    return q, tuple((f, (e - 1) // 2 if e % 2 else e // 2) for f, e in F)

def sgn_atom(f):
    "sign of factor f as an atom with square one"
    a = atom("sgn", f, info=f)
    if a.reduce2 is None:
        a.reduce2 = {0: 1}; reducible.append(a.i); reducible.sort()
    return a

def rf_sqrt(x):
    P, F = x
    if not P: return ZERO
    out = ONE
    rad = P
    for f, e in F:
        if e % 2:
            rad = pmul(rad, factors[f]); e -= 1
        k = e // 2
        if k:
            fs = poly_sign(factors[f])
            t = (pc(1), ((f, k),))
            if k % 2 and fs not in (1, 2):
                t = rf_mul(t, ({mono(sgn_atom(f).i): 1}, ()))
            out = rf_mul(out, t)
    # content
    if not rad: return ZERO
    g = rad[max(rad)]
    c = abs(Fraction(g))
    num = c.numerator; den = c.denominator
    # pull a rational square out so that equal radicands up to a square share their atom
    sq = _sqpart(num, den)
    rad2 = {m: _n(Fraction(v) / (sq * sq)) for m, v in rad.items()} if sq != 1 else rad
    q = poly_sqrt(rad2) if not any(((m >> (W * i)) & MASK) for m in rad2 for i in ()) else None
    if q is not None and len(q) == 1 and max(q) == 0:
        return rf_mul(out, rf_const(_n(sq * q[0])))
    if q is not None:
        s = poly_sign(q)
        if s in (1, 2): return rf_mul(out, (pscale(q, sq), ()))
        if s in (-1, -2): return rf_mul(out, (pscale(q, -sq), ()))
        cc, f = factor_of(q)
        a = sgn_atom(f)
        r = (pscale(q, sq if cc > 0 else -sq), ())
        return rf_mul(out, rf_mul(r, ({mono(a.i): 1}, ())))
    # common even powers of monomials: s = x^k * sqrt(..) is left alone (sign unknown)
    a = atom("sqrt", pkey(rad2), info=rad2, nonneg=True, positive=poly_sign(rad2) == 1)
    if a.reduce2 is None:
        a.reduce2 = rad2; reducible.append(a.i); reducible.sort()
    return rf_mul(out, ({mono(a.i): _n(sq)}, ()))

def _sqpart(num, den):
    "rational r such that r^2 divides num/den in the simple case that num/den is itself a square"
    a = terms._isqrt(num); b = terms._isqrt(den)
    if a is not None and b is not None: return Fraction(a, b)
    # otherwise normalise by the leading power of 4/100 ... keep simple
    return 1

# ---- transcendental functions
def unroot(x):
    "even powers of roots in the denominator are replaced by their radicands"
    P, F = x
    for f, e in F:
        Q = factors[f]
        if e > -2 or len(Q) != 1: continue
        (m, c), = Q.items(); it = list(mono_items(m))
        if len(it) != 1 or it[0][1] != 1 or atoms[it[0][0]].kind not in ("sqrt", "sgn"): continue
        k = -e // 2
        y = (P, tuple((g, d + 2 * k if g == f else d) for g, d in F if g != f or d + 2 * k))
        inv = rf_inv((atoms[it[0][0]].reduce2, ()))
        for _ in range(k): y = rf_mul(y, inv)
        return unroot(y)
    return x
def rf_key(x): return (pkey(x[0]), x[1])
def rf_neg(x): return (pscale(x[0], -1), x[1])
# Arguments of elementary functions that differ by the rounding of constants only (1e-12 relative, coefficient by
# coefficient) count as the same argument.
FUZZ = Fraction(1, 10**12)
fuzzed = [0]
def fuzzint(q):
    "q if it is an integer, or the non-zero integer it misses by rounding, else None"
    q = Fraction(q)
    if q.denominator == 1: return int(q)
    n = round(q)
    if n and abs(q - n) <= FUZZ * abs(n): fuzzed[0] += 1; return n
    return None
_near = {}
def near_key(tag, x):
    "the representative of all arguments that agree with x up to the rounding of constants"
    P, F = x
    l = _near.setdefault((tag, frozenset(P), F), [])
    for Q in l:
        if all(abs(P[m] - Q[m]) <= FUZZ * abs(Q[m]) for m in P):
            if P != Q: fuzzed[0] += 1
            return (Q, F)
    l.append(P)
    return x
_expunit = {}
def rf_exp(x):
    P, F = x
    out = ONE
    for m, c in P.items():
        key = (m, F)
        u = _expunit.setdefault(key, abs(Fraction(c)))
        k = fuzzint(Fraction(c) / u)
        if k is None:
            u = abs(Fraction(c)); k = 1 if c > 0 else -1
        a = atom("exp", (key, u), info=({m: _n(u)}, F), positive=True)
        t = ({mono(a.i): 1}, ())
        k = int(k)
        for _ in range(abs(k)):
            out = rf_mul(out, t if k > 0 else rf_inv(t))
    return out

def lead_negative(x):
    P = x[0]
    return P[max(P)] < 0

def trig_pair(kind, x):
    "atoms (s, c) for sin/cos or sinh/cosh of canonical argument"
    k = rf_key(x)
    if kind == "trig":
        c = atom("cos", k, info=x); s = atom("sin", k, info=x)
        if s.reduce2 is None:
            s.reduce2 = {0: 1, mono(c.i, 2): -1}; reducible.append(s.i); reducible.sort()
    else:
        c = atom("cosh", k, info=x, positive=True); s = atom("sinh", k, info=x)
        if s.reduce2 is None:
            s.reduce2 = {0: -1, mono(c.i, 2): 1}; reducible.append(s.i); reducible.sort()
    return s, c

SPLIT_TRIG = [True]
def rf_trig(name, x):
    kind = "trig" if name in ("sin", "cos") else "hyp"
    P, F = x
    if not P: return ZERO if name in ("sin", "sinh") else ONE
    # angle addition over the monomials of the argument
    parts = [({m: c}, F) for m, c in sorted(P.items())]
    if len(parts) > 6: parts = [x]
    S = C = None
    for p in parts:
        s, c = _one_trig(kind, p)
        if S is None: S, C = s, c
        else:
            S, C = rf_add(rf_mul(S, c), rf_mul(C, s)), rf_add(rf_mul(C, c), (pscale(rf_mul(S, s)[0], -1 if kind == "trig" else 1), rf_mul(S, s)[1]))
    return S if name in ("sin", "sinh") else C

_trigunit = {}
def _one_trig(kind, p):
    "sin and cos of a single-monomial argument c*m*F, as integer multiples of a unit angle"
    neg = False
    (m, c), = p[0].items() if len(p[0]) == 1 else ((None, None),)
    if m is not None:
        if c < 0: neg = True; c = -c
        key = (kind, m, p[1])
        us = _trigunit.setdefault(key, [])
        unit = None; k = 1
        for u in us:
            q = fuzzint(Fraction(c) / u)
            if q is not None and q <= 8: unit = u; k = q; break
        if unit is None:
            us.append(Fraction(c)); unit = Fraction(c)
        s, co = trig_pair(kind, ({m: _n(unit)}, p[1]))
    else:
        if lead_negative(p): neg = True; p = rf_neg(p)
        p = near_key(kind, p)
        s, co = trig_pair(kind, p); k = 1
    s1 = ({mono(s.i): 1}, ()); c1 = ({mono(co.i): 1}, ())
    S, C = s1, c1
    sg = -1 if kind == "trig" else 1
    for _ in range(k - 1):
        S, C = rf_add(rf_mul(S, c1), rf_mul(C, s1)), rf_add(rf_mul(C, c1), (pscale(rf_mul(S, s1)[0], sg), rf_mul(S, s1)[1]))
    if neg: S = rf_neg(S)
    return S, C

# ---- conversion of nodes
def to_rf(root):
    if not isinstance(root, Node):
        if special(root): raise ValueError("special value in formula")
        return rf_const(root)
    if root.rf is not None: return root.rf
    stack = [root]
    while stack:
        n = stack[-1]
        if n.rf is not None: stack.pop(); continue
        if n.op in ("var", "toreal") or n.sort == "I":
            n.rf = _leaf(n); stack.pop(); continue
        todo = [x for x in n.a if isinstance(x, Node) and x.rf is None]
        if todo: stack.extend(todo); continue
        try:
            n.rf = _conv(n)
        except TooBig:
            n.rf = _cut(n)
        stack.pop()
    return root.rf

def _leaf(n):
    if n.op == "var":
        a = atom("var", n.a[0], info=n, name="v_" + n.a[0]); return ({mono(a.i): 1}, ())
    x = n.a[0] if n.op == "toreal" else n
    # linear decomposition of the integer
    if isinstance(x, Node) and x.op == "iadd":
        l = _leaf_int(x.a[0]); r = _leaf_int(x.a[1]); return rf_add(l, r)
    return _leaf_int(x)
def _leaf_int(x):
    if not isinstance(x, Node): return rf_const(x)
    if x.op == "iadd": return rf_add(_leaf_int(x.a[0]), _leaf_int(x.a[1]))
    if x.op == "imul": return rf_mul(_leaf_int(x.a[0]), _leaf_int(x.a[1]))
    a = atom("int", x.id, info=x, nonneg=x.lo is not None and x.lo >= 0, positive=x.lo is not None and x.lo > 0)
    return ({mono(a.i): 1}, ())

def _rf(x): return x.rf if isinstance(x, Node) else rf_const(x)
def _conv(n, _rf=_rf):
    op = n.op; a = n.a
    if op == "add": return rf_add(_rf(a[0]), _rf(a[1]))
    if op == "mul": return rf_mul(_rf(a[0]), _rf(a[1]))
    if op == "div":
        d = _rf(a[1])
        if not d[0]: raise ZeroDivisionError("division by an identically zero term")
        return rf_mul(_rf(a[0]), rf_inv(d))
    if op == "sqrt": return rf_sqrt(_rf(a[0]))
    if op == "fn":
        f = a[0]
        args = [cancel(unroot(_rf(x))) for x in a[1:]]
        if f in ("sin", "cos", "sinh", "cosh"): return rf_trig(f, args[0])
        if f == "exp": return rf_exp(args[0])
        if f == "tan":
            return rf_mul(rf_trig("sin", args[0]), rf_inv(rf_trig("cos", args[0])))
        if f == "tanh":
            return rf_mul(rf_trig("sinh", args[0]), rf_inv(rf_trig("cosh", args[0])))
        args = [near_key(f, x) for x in args]
        at = atom("fn", (f,) + tuple(rf_key(x) for x in args), info=(f, args))
        return ({mono(at.i): 1}, ())
    raise NotImplementedError(op)

def _cut(n):
    a = atom("cut", n.id, info=n)
    return ({mono(a.i): 1}, ())

# ---- abstraction: sums that lie deep in the term are replaced by fresh atoms of known sign.  What is proved for the
# abstracted term (for all values of the fresh atoms) holds for the term itself.
_sh = {}
def height(n):
    "nesting depth of sums (a chain of additions counts once)"
    if not isinstance(n, Node): return 0
    r = _sh.get(n.id)
    if r is not None: return r
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in _sh: stack.pop(); continue
        todo = [y for y in x.a if isinstance(y, Node) and y.id not in _sh]
        if todo: stack.extend(todo); continue
        hs = [(_sh[y.id] - (1 if _issum(y) and _issum(x) else 0)) for y in x.a if isinstance(y, Node)]
        h = max(hs) if hs else 0
        _sh[x.id] = h + 1 if _issum(x) else h
        stack.pop()
    return _sh[n.id]
def _issum(n):
    return n.op == "add" or (n.op == "mul" and not isinstance(n.a[0], Node) and isinstance(n.a[1], Node) and n.a[1].op == "add")

class Abs:
    def __init__(self, level, signs=None):
        self.level = level; self.memo = {}; self.signs = signs; self.cuts = {}
    def rf(self, root):
        if not isinstance(root, Node):
            if special(root): raise ValueError("special value in formula")
            return rf_const(root)
        memo = self.memo
        get = lambda x: memo[x.id] if isinstance(x, Node) else rf_const(x)
        stack = [(root, None)]
        while stack:
            n, par = stack[-1]
            if n.id in memo: stack.pop(); continue
            if n.op in ("var", "toreal") or n.sort == "I":
                memo[n.id] = to_rf(n); stack.pop(); continue
            if n.op == "add" and height(n) <= self.level and par is not None and not _issum(par):
                memo[n.id] = self.cut(n); stack.pop(); continue
            todo = [(x, n) for x in n.a if isinstance(x, Node) and x.id not in memo]
            if todo: stack.extend(todo); continue
            memo[n.id] = _conv(n, get); stack.pop()
        return memo[root.id]
    def cut(self, n):
        s = self.signs(n) if self.signs else 0
        a = atom("abs", (n.id, s), info=n, positive=s == 2, nonneg=s >= 1)
        self.cuts[a.i] = s
        return ({mono(a.i): 1}, ())

# ---- to z3
def z3num(c):
    c = Fraction(c)
    return z3.RealVal(str(c.numerator) + "/" + str(c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)

QLIMIT = [4000]
_qterms = [0]
def poly_z3(p, used):
    _qterms[0] += len(p)
    if _qterms[0] > QLIMIT[0]: raise TooBig()
    ts = []
    for m, c in p.items():
        fs = []
        for i, e in mono_items(m):
            used.add(i)
            z = atom_z3(atoms[i], used)
            fs.extend([z] * e)
        if not fs: ts.append(z3num(c)); continue
        t = fs[0]
        for f in fs[1:]: t = t * f
        if c == 1: ts.append(t)
        else: ts.append(z3num(c) * t)
    if not ts: return z3.RealVal(0)
    if len(ts) == 1: return ts[0]
    return z3.Sum(ts)

def atom_z3(a, used):
    if a.kind == "int": return z3.ToReal(int_z3(a.info, used))
    return a.z

_ivars = {}
_intz = {}
def int_z3(x, used):
    if not isinstance(x, Node): return z3.IntVal(x)
    if x.op == "ivar":
        z = _ivars.get(x.id)
        if z is None: z = _ivars[x.id] = z3.Int("i_" + x.a[0])
        used.add(("i", x.id)); return z
    if x.op == "iadd": return int_z3(x.a[0], used) + int_z3(x.a[1], used)
    if x.op == "imul": return int_z3(x.a[0], used) * int_z3(x.a[1], used)
    if x.op == "idiv": return int_z3(x.a[0], used) / int_z3(x.a[1], used)
    if x.op == "imod": return int_z3(x.a[0], used) % int_z3(x.a[1], used)
    if x.op == "floor":
        z = _ivars.get(x.id)
        if z is None: z = _ivars[x.id] = z3.Int("fl_%d" % x.id)
        used.add(("fl", x.id)); return z
    raise NotImplementedError(x.op)

def sign_expr(P, F, used):
    "polynomial with the same sign as P*prod f^e (denominators non-zero)"
    t = poly_z3(P, used)
    for f, e in F:
        s = poly_sign(factors[f])
        if e % 2 == 0 or s in (1, 2): continue
        if s in (-1, -2): t = -t; continue
        t = t * poly_z3(factors[f], used)
    return t

def const_interval(a):
    "rational enclosure (1e-13) of a function of constants"
    v = []
    for x in a.info[1]:
        c = rf_constval(x)
        if c is None: return None
        v.append(c)
    try:
        import mpmath
        with mpmath.workdps(40):
            y = getattr(mpmath, a.info[0])(*[mpmath.mpf(x.numerator) / x.denominator for x in v])
            if not isinstance(y, mpmath.mpf): return None
            y = Fraction(str(mpmath.nstr(y, 30)))
    except (ValueError, ZeroDivisionError, OverflowError): return None
    e = Fraction(1, 10**13) * max(1, abs(y))
    return [z3.Q((y - e).numerator, (y - e).denominator), z3.Q((y + e).numerator, (y + e).denominator)]
def rf_constval(x):
    if isinstance(x, (int, Fraction)): return Fraction(x)
    P, F = x
    if F or any(m != 0 for m in P): return None
    return Fraction(P.get(0, 0))

def atom_constraints(i, used):
    """definitional constraints of an atom"""
    if isinstance(i, tuple):
        n = terms._nodes[i[1]]
        if i[0] == "i":
            z = _ivars[n.id]; r = []
            if n.lo is not None: r.append(z >= n.lo)
            if n.hi is not None: r.append(z <= n.hi)
            return r
        z = _ivars[n.id]
        x = to_rf(n.a[0])
        used2 = used
        # z <= x < z+1
        zi = ({mono(_leafatom(n)): 1}, ())
        d = rf_add(x, rf_neg(zi))
        return [sign_expr(d[0], d[1], used2) >= 0, sign_expr(*rf_add(d, rf_const(-1)), used2) < 0]
    a = atoms[i]
    if a.kind == "sqrt":
        return [a.z >= 0, a.z * a.z == poly_z3(a.info, used)] if a.reduce2 is not None else []
    if a.kind == "sgn":
        q = poly_z3(factors[a.info], used)
        return [z3.Or(z3.And(q >= 0, a.z == 1), z3.And(q < 0, a.z == -1))]
    if a.kind in ("sin", "cos"):
        s, c = trig_pair("trig", a.info); used.add(s.i); used.add(c.i)
        return [s.z * s.z + c.z * c.z == 1, a.z <= 1, a.z >= -1]
    if a.kind in ("sinh", "cosh"):
        s, c = trig_pair("hyp", a.info); used.add(s.i); used.add(c.i)
        return [c.z * c.z - s.z * s.z == 1, c.z >= 1]
    if a.kind == "exp": 
        arg = a.info
        sg = sign_expr(arg[0], arg[1], used)
        return [a.z > 0, (sg > 0) == (a.z > 1), (sg < 0) == (a.z < 1)]
    if a.kind == "abs":
        return [a.z > 0] if a.positive else [a.z >= 0] if a.nonneg else [a.z < 0] if a.key[1] == -2 else [a.z <= 0] if a.key[1] == -1 else []
    if a.kind == "cut":
        return cut_constraints(a, used)
    if a.kind == "fn" and a.info[0] in ("atan", "asin", "acos", "atan2", "erf"):
        b = {"atan": 2, "asin": 2, "acos": 4, "atan2": 4, "erf": 1}[a.info[0]]
        iv = const_interval(a)
        if iv: return [a.z >= iv[0], a.z <= iv[1]]
        return [a.z <= b, a.z >= -b]
    return []

def _leafatom(n):
    return atom("int", n.id, info=n).i

def cut_constraints(a, used):
    n = a.info
    op = n.op
    def sub(x):
        P, F = to_rf(x) if isinstance(x, Node) else rf_const(x)
        if not F: return poly_z3(P, used), z3.RealVal(1)
        d = z3.RealVal(1)
        for f, e in F:
            fz = poly_z3(factors[f], used)
            for _ in range(-e): d = d * fz
        return poly_z3(P, used), d
    if op in ("add", "mul", "div"):
        p, d = sub(n.a[0]); q, e = sub(n.a[1])
        if op == "add": return [a.z * d * e == p * e + q * d]
        if op == "mul": return [a.z * d * e == p * q]
        return [a.z * d * q == p * e]
    if op == "sqrt":
        p, d = sub(n.a[0]); return [a.z >= 0, a.z * a.z * d == p]
    return []

def bool_z3(b, used, rf=None):
    if rf is None: rf = to_rf
    if b is True: return z3.BoolVal(True)
    if b is False: return z3.BoolVal(False)
    op = b.op
    if op == "bvar": return z3.Bool(b.a[0])
    if op == "not":
        x = b.a[0]
        return z3.Not(bool_z3(x, used, rf))
    if op == "and": return z3.And(bool_z3(b.a[0], used, rf), bool_z3(b.a[1], used, rf))
    if op == "or": return z3.Or(bool_z3(b.a[0], used, rf), bool_z3(b.a[1], used, rf))
    x, y = b.a
    sx = x.sort if isinstance(x, Node) else None; sy = y.sort if isinstance(y, Node) else None
    if "I" in (sx, sy):
        l = int_z3(x, used); r = int_z3(y, used)
        return l < r if op == "lt" else l <= r if op == "le" else l == r
    d = rf_add(rf(x), rf_neg(rf(y)))
    if op == "eq": return poly_z3(d[0], used) == 0
    t = sign_expr(d[0], d[1], used)
    return t < 0 if op == "lt" else t <= 0

def closure(used):
    "all definitional constraints of the used atoms"
    done = set(); cons = []
    work = list(used)
    while work:
        i = work.pop()
        if i in done: continue
        done.add(i)
        u = set()
        cons.extend(atom_constraints(i, u))
        for j in u:
            if j not in done: work.append(j)
    used |= done
    return cons
