"""Linear (polyhedral) facts over integer terms.

A fact is a polynomial term p meaning p <= 0.  Non-linear or opaque atoms are
treated as unknowns.  min/max/abs/floor-division atoms are replaced by their
defining inequalities (case split for the non-convex direction).
Entailment is decided by Fourier-Motzkin elimination with integer tightening.
"""
from fractions import Fraction
from math import gcd
from . import terms as T

class TooBig(Exception): pass

def _linear(t):
    """dict atom->coef and constant, or None"""
    if t.kind not in ("int", "bool", "any", "real"): return None
    d = {}; c = Fraction(0)
    for m, k in T.to_poly(t).items():
        if k.im != 0: return None
        if m == (): c = k.re; continue
        # a monomial is one unknown
        if len(m) == 1 and m[0][1] == 1: a = m[0][0]
        else: a = m
        d[a] = d.get(a, Fraction(0)) + k.re
    return d, c

def _int(row):
    """scale to integers;  row: (coefs, const) meaning sum+const<=0"""
    d, c = row
    den = Fraction(c).denominator
    for k in d.values():
        k = Fraction(k).denominator
        den = den * k // gcd(den, k)
    return _tight({a: int(k * den) for a, k in d.items() if k != 0}, int(c * den))

def _tight(d, c):
    """divide by the common factor of the coefficients, rounding the constant up"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
        if g == 1: return d, c
    if g > 1: return {a: k // g for a, k in d.items()}, -((-c) // g)
    return d, c

def infeasible(rows, limit=4000):
    rows = [_int(r) for r in rows]
    while True:
        seen = {}
        for d, c in rows:
            if not d:
                if c > 0: return True
                continue
            k = frozenset(d.items())
            o = seen.get(k)
            if o is None or o[1] < c: seen[k] = (d, c)
        rows = list(seen.values())
        if not rows: return False
        if len(rows) > limit: raise TooBig
        vs = {}
        for d, c in rows:
            for a, k in d.items():
                u = vs.get(a)
                if u is None: u = vs[a] = [0, 0]
                u[0 if k > 0 else 1] += 1
        v = min(vs, key=lambda a: vs[a][0] * vs[a][1])
        pos, ng, rest = [], [], []
        for r in rows:
            k = r[0].get(v, 0)
            (pos if k > 0 else ng if k < 0 else rest).append(r)
        for p, pc in pos:
            a = p[v]
            for q, qc in ng:
                b = -q[v]
                d = {x: k * b for x, k in p.items()}
                for x, k in q.items():
                    k = d.get(x, 0) + k * a
                    if k: d[x] = k
                    else: d.pop(x, None)
                rest.append(_tight(d, pc * b + qc * a))
        rows = rest

def _special(atoms):
    for a in atoms:
        if isinstance(a, tuple): continue
        if a.op == "fun" and a.args[0] in ("abs", "min", "max", "floordiv", "mod"): return a
    return None

def _cases(facts, done):
    """expand special atoms; yields lists of rows (case split)"""
    rows = []
    atoms = set()
    for f in facts:
        r = _linear(f)
        if r is None: continue
        rows.append(r)
        atoms.update(r[0])
    s = _special(a for a in atoms if a not in done)
    if s is None:
        # dimensions are non-negative
        for a in atoms:
            if not isinstance(a, tuple) and is_nonneg(a): rows.append(({a: Fraction(-1)}, Fraction(0)))
        yield rows
        return
    done = done | {s}
    n, *x = s.args
    if n == "abs":
        e = x[0]
        yield from _cases(facts + [T.neg(e), T.sub(s, e), T.sub(e, s)], done)
        yield from _cases(facts + [T.add(e, T.num(1)) if e.kind == "int" else e, T.add(s, e), T.neg(T.add(s, e))], done)
    elif n in ("min", "max") and len(x) == 2:
        a, b = x
        sg = (lambda u, v: T.sub(u, v)) if n == "min" else (lambda u, v: T.sub(v, u))
        # min: s<=a, s<=b and (s==a or s==b)
        yield from _cases(facts + [sg(s, a), sg(s, b), sg(a, s)], done)
        yield from _cases(facts + [sg(s, a), sg(s, b), sg(b, s)], done)
    elif n == "floordiv" and x[1].op == "num" and x[1].args[0].re > 0:
        e, d = x
        ds = T.mul(d, s)
        yield from _cases(facts + [T.sub(ds, e), T.sub(T.sub(e, ds), T.sub(d, T.num(1)))], done)
    elif n == "mod" and x[1].op == "num" and x[1].args[0].re > 0:
        yield from _cases(facts + [T.neg(s), T.add(T.sub(s, x[1]), T.num(1))], done)
    else:
        yield from _cases(facts, done)

NONNEG = {"dim", "len", "iv", "bv", "size"}
def is_nonneg(a):
    return a.op in NONNEG or (a.op == "sym" and a.args[0].startswith("dim_"))

def unsat(facts):
    """facts (terms p meaning p<=0) contradictory?"""
    try:
        for rows in _cases(list(facts), frozenset()):
            if not infeasible(rows): return False
        return True
    except TooBig:
        return False

_memo = {}
def entails(facts, p):
    """facts |= p <= 0   (integers)"""
    if p.op == "num": return p.args[0].im == 0 and p.args[0].re <= 0
    key = (frozenset(facts), p)
    r = _memo.get(key)
    if r is None:
        # not (p<=0) : p >= 1 : 1-p <= 0
        r = _memo[key] = unsat(list(relevant(facts, p)) + [T.sub(T.num(1), p)])
    return r

def relevant(facts, p):
    """facts connected with p through shared atoms"""
    want = _atoms(p); fs = [(f, _atoms(f)) for f in facts]
    out = []; go = True
    while go:
        go = False
        for f in list(fs):
            if not f[1] or f[1] & want:
                out.append(f[0]); want |= f[1]; fs.remove(f); go = True
    return out

def _atoms(t):
    r = set()
    for m, c in T.to_poly(t).items():
        for a, e in m:
            r.add(a)
            if a.op == "fun":
                for x in a.args[1:]: r |= _atoms(x)
    return r

def literal_facts(lit, val):
    """facts implied by an atomic condition having value val"""
    p = lit.args[0] if lit.op in ("lt0", "le0", "eq0") else None
    if p is None or p.kind not in ("int",): return []
    if lit.op == "lt0": return [T.add(p, T.num(1))] if val else [T.neg(p)]
    if lit.op == "le0": return [p] if val else [T.sub(T.num(1), p)]
    if lit.op == "eq0" and val: return [p, T.neg(p)]
    return []

_memo_cube = {}
def cube(c):
    """literals that hold whenever condition c holds"""
    r = _cube(c)
    return list(r) if r else []

def _cube(c):
    if c is T.TRUE: return frozenset()
    if c is T.FALSE: return None
    if c.op != "ite": return frozenset([(c, True)])
    r = _memo_cube.get(c)
    if r is None:
        v, h, l = c.args
        a, b = _cube(h), _cube(l)
        if a is not None: a = a | {(v, True)}
        if b is not None: b = b | {(v, False)}
        r = b if a is None else a if b is None else a & b
        _memo_cube[c] = r
    return r

def cond_facts(c):
    r = []
    for a, v in cube(c): r += literal_facts(a, v)
    return r

def paths(c, lits=()):
    """disjoint cubes of a condition"""
    if c is T.TRUE: yield list(lits); return
    if c is T.FALSE: return
    if c.op != "ite":
        yield list(lits) + [(c, True)]; return
    v, h, l = c.args
    yield from paths(h, lits + ((v, True),))
    yield from paths(l, lits + ((v, False),))
