"""SMT queries over path conditions: z3 in process, cvc5 as a second opinion."""
import time, z3
from fractions import Fraction
from terms import *
import algebra as alg
import terms

class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0; self.time = 0.0; self.algebraic = 0; self.confirmed = 0
    def add(self, o):
        for k, v in o.items(): setattr(self, k, getattr(self, k) + v)
    def asdict(self): return dict(self.__dict__)

def _val(v):
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30); return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v): return v.as_long()
    raise ValueError("no value")

COMPLETE = None
def holds(asg, conds):
    "all conditions clearly true under the assignment"
    import mpmath
    ev = terms.HPEvaluator(asg)
    def tr(c):
        if isinstance(c, bool): return c
        if c.op == "not":
            r = tr(c.a[0]); return None if r is None else not r
        if c.op in ("and", "or"):
            l, r = tr(c.a[0]), tr(c.a[1])
            if c.op == "and": return False if l is False or r is False else (True if l and r else None)
            return True if l or r else (False if l is False and r is False else None)
        l, r = ev.ev(c.a[0]), ev.ev(c.a[1])
        if c.op in ("lt", "le", "eq"):
            l, r = [mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x for x in (l, r)]
            if isinstance(l, int) and isinstance(r, int): return l < r if c.op == "lt" else l <= r if c.op == "le" else l == r
            if abs(l - r) <= 1e-12 * max(abs(l), abs(r)): return None
            return l < r if c.op in ("lt", "le") else False
        return None
    try: return all(tr(c) is True for c in conds)
    except (terms.EvalError, OverflowError, KeyError, NotImplementedError): return False

def query(conds, stats, timeout=3000, want_model=True, cores=None):
    """conds: list of Bool nodes (conjunction).  Returns ('sat', asg) / ('unsat', None) / ('unknown', None)"""
    t0 = time.time()
    stats.queries += 1
    used = set(); alg._qterms[0] = 0; dropped = []
    try:
        zs = []
        for c in reversed(conds):
            if c is True: continue
            if c is False:
                stats.unsat += 1; return "unsat", None
            q0 = alg._qterms[0]; u0 = set(used)
            try: zs.append(alg.bool_z3(c, used))
            except alg.TooBig:
                alg._qterms[0] = q0; used.clear(); used |= u0; dropped.append(c)          # weaker: unsat stays conclusive, a model is checked numerically
        zs += alg.closure(used)
    except alg.TooBig:
        stats.unknown += 1; stats.time += time.time() - t0
        return "unknown", None
    hasint = any(isinstance(u, tuple) for u in used)
    s = z3.Solver() if hasint else z3.SolverFor("QF_NRA")
    s.set("timeout", timeout)
    s.add(zs)
    r = s.check()
    if r == z3.unknown and not hasint:
        # a second strategy: the general solver
        s2 = z3.Solver(); s2.set("timeout", timeout); s2.add(zs)
        r2 = s2.check()
        if r2 != z3.unknown: r = r2; s = s2
    stats.time += time.time() - t0
    if r == z3.unsat:
        stats.unsat += 1; return "unsat", None
    if r == z3.unknown:
        stats.unknown += 1; return "unknown", None
    if not dropped: stats.sat += 1
    if not want_model and not dropped: return "sat", None
    m = s.model(); asg = {}
    for u in used:
        if isinstance(u, tuple):
            n = terms._nodes[u[1]]
            if u[0] == "i":
                v = m.eval(alg._ivars[n.id], model_completion=True); asg[n.a[0]] = v.as_long()
            continue
        a = alg.atoms[u]
        if a.kind == "var":
            try: asg[a.key] = _val(m.eval(a.z, model_completion=True))
            except Exception: pass
    if dropped:
        if COMPLETE is None or not holds(COMPLETE(asg), dropped):
            stats.unknown += 1; return "unknown", None
        stats.sat += 1
    return "sat", asg

def query_abs(conds, stats, level, signs, timeout=400):
    """unsat of the abstraction at the given level implies unsat of the conditions"""
    t0 = time.time()
    ab = alg.Abs(level, signs); used = set(); zs = []; alg._qterms[0] = 0
    old = alg.LIMIT; alg.LIMIT = 400
    try:
        for c in conds:
            if isinstance(c, bool): continue
            try: zs.append(alg.bool_z3(c, used, ab.rf))
            except (alg.TooBig, ZeroDivisionError, ValueError): continue     # dropping a condition is sound
        zs += alg.closure(used)
    except (alg.TooBig, ZeroDivisionError, ValueError):
        stats.time += time.time() - t0; return "unknown"
    finally: alg.LIMIT = old
    hasint = any(isinstance(u, tuple) for u in used)
    s = z3.Solver() if hasint else z3.SolverFor("QF_NRA")
    s.set("timeout", timeout); s.add(zs)
    r = s.check()
    stats.time += time.time() - t0
    if r == z3.unsat: stats.queries += 1; stats.unsat += 1; return "unsat"
    return "other"

def confirm_identity(ra, rb, stats):
    """the equality of two rational normal forms as an SMT query: Pa*Db != Pb*Da must be unsatisfiable together with the
    definitions of the atoms.  Returns True if the solver answered unsat (large instances are left to the normal form)."""
    def den(F):
        r = []
        for f, e in F:
            if e > 0: return None
            r += [f] * (-e)
        return r
    if len(ra[0]) + len(rb[0]) > 150: return False
    da = den(ra[1]); db = den(rb[1])
    if da is None or db is None: return False
    for f in list(da): 
        if f in db: da.remove(f); db.remove(f)
    t0 = time.time(); used = set(); alg._qterms[0] = 0
    try:
        l = alg.poly_z3(ra[0], used); r = alg.poly_z3(rb[0], used)
        for f in db: l = l * alg.poly_z3(alg.factors[f], used)
        for f in da: r = r * alg.poly_z3(alg.factors[f], used)
        cs = alg.closure(used)
    except alg.TooBig: return False
    s = z3.SolverFor("QF_NRA") if not any(isinstance(u, tuple) for u in used) else z3.Solver()
    s.set("timeout", 250); s.add(cs); s.add(l != r)
    ok = s.check() == z3.unsat
    stats.queries += 1; stats.time += time.time() - t0
    if ok: stats.unsat += 1; stats.confirmed += 1
    else: stats.unknown += 0; stats.queries -= 1
    return ok
