"""Hash-consed value terms: the abstract domain of the value-numbering analysis.

Every value an analysed program computes is mapped to an interned term.  Two
computations are identified when they have the same normal form:

* arithmetic is normalised to Laurent polynomials over Gaussian rationals whose
  indeterminates are the non-arithmetic terms (conj, |.|, re/im are rewritten to
  polynomials in x and conj(x));
* values that depend on a branch are gated: multi-terminal decision diagrams over
  condition atoms in a fixed order (so nesting / order of tests does not matter);
* comparisons are normalised to p<0, p<=0, p==0 with a normalised polynomial p.

No solver is involved, equality of values is identity of terms.
"""
from fractions import Fraction
from math import gcd

class Undecided(Exception):
    """the analysed construct is outside of what the analysis models"""

class Term:
    __slots__ = ("op", "args", "id", "kind", "scalar", "_hash", "fv")
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self._hash
    def __eq__(self, o):
        return self is o
    def __lt__(self, o):
        return self.id < o.id
    def __bool__(self):
        raise TypeError("term used as a python bool: %s" % show(self))

_tab = {}
_n = [0]

def _mk(op, args, kind="any", scalar=False):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.kind, t.scalar = op, args, kind, scalar
        _n[0] += 1
        t.id = _n[0]
        t._hash = hash((op, t.id))
        if op == "iv":
            t.fv = frozenset([t])
        else:
            fv = frozenset()
            for a in args:
                fv = _collect(a, fv)
            t.fv = fv
        _tab[key] = t
    return t

def _collect(a, fv):
    if isinstance(a, Term):
        return fv | a.fv if a.fv else fv
    if isinstance(a, tuple):
        for b in a:
            fv = _collect(b, fv)
    return fv

# ------------------------------------------------------------------ constants
class G:
    """Gaussian rational"""
    __slots__ = ("re", "im")
    def __init__(s, re, im=0):
        s.re, s.im = Fraction(re), Fraction(im)
    def __eq__(s, o): return isinstance(o, G) and s.re == o.re and s.im == o.im
    def __hash__(s): return hash((s.re, s.im))
    def __add__(s, o): return G(s.re + o.re, s.im + o.im)
    def __sub__(s, o): return G(s.re - o.re, s.im - o.im)
    def __mul__(s, o): return G(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    def inv(s):
        d = s.re * s.re + s.im * s.im
        return G(s.re / d, -s.im / d)
    def __neg__(s): return G(-s.re, -s.im)
    def conj(s): return G(s.re, -s.im)
    def zero(s): return s.re == 0 and s.im == 0
    def real(s): return s.im == 0
    def __repr__(s):
        return str(s.re) if s.im == 0 else "(%s%+sj)" % (s.re, s.im)

ONE, ZERO = G(1), G(0)

def num(x):
    """numeric constant"""
    if isinstance(x, Term): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, G): g = x
    elif isinstance(x, complex): g = G(_fr(x.real), _fr(x.imag))
    elif isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return _mk("special", (repr(x),), "real", True)
        g = G(_fr(x))
    else: g = G(Fraction(x))
    kind = "int" if g.im == 0 and g.re.denominator == 1 else ("real" if g.im == 0 else "cplx")
    return _mk("num", (g,), kind, True)

def _fr(x):
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)

def const(x):
    if isinstance(x, Term): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, (int, float, complex, Fraction, G)): return num(x)
    if isinstance(x, tuple): return tup(*[const(i) for i in x])
    if x is Ellipsis: return ELLIPSIS
    return _mk("const", (type(x).__name__, x), "any", True)

TRUE = _mk("bool", (True,), "bool", True)
FALSE = _mk("bool", (False,), "bool", True)
NONE = _mk("const", ("NoneType", None), "none", True)
ELLIPSIS = _mk("const", ("ellipsis", "..."), "any", True)

def is_const(t):
    return t.op in ("num", "const", "bool") or (t.op == "tup" and all(is_const(a) for a in t.args))

def pyval(t):
    """python value of a constant term (or raise)"""
    if t.op == "num":
        g = t.args[0]
        if g.im == 0:
            return int(g.re) if g.re.denominator == 1 else g.re
        return g
    if t.op == "bool": return t.args[0]
    if t is ELLIPSIS: return Ellipsis
    if t.op == "const": return t.args[1]
    if t.op == "tup": return tuple(pyval(a) for a in t.args)
    raise Undecided("not a constant: %s" % show(t))

def sym(name, kind="any", scalar=False):
    return _mk("sym", (name, kind), kind, scalar)
PI = sym("pi", "real", True)

def iv(n):
    """index of an enclosing loop (0 based)"""
    return _mk("iv", (n,), "int", True)

def bv(n):
    """bound index of a closed binder term"""
    return _mk("bv", (n,), "int", True)

def tup(*args):
    # gate inside of the tuple
    return _mk("tup", tuple(args), "tup")

# ------------------------------------------------------------------ decision diagrams
_memo_ite = {}
_steps = [0]
LIMIT = 400000

def _tick():
    _steps[0] += 1
    if _steps[0] > LIMIT:
        raise Undecided("value graph too large")

def reset_limit():
    _steps[0] = 0

def _node(v, hi, lo):
    if hi is lo: return hi
    if hi is TRUE and lo is FALSE: return v
    # abs pattern
    r = _abs_pattern(v, hi, lo)
    if r is not None: return r
    if hi.op == "tup" and lo.op == "tup" and len(hi.args) == len(lo.args) and hi is not lo and hi.args:
        return tup(*[ite(v, a, b) for a, b in zip(hi.args, lo.args)])
    k = hi.kind if hi.kind == lo.kind else ("bool" if hi.kind == lo.kind == "bool" else _kmax(hi.kind, lo.kind))
    return _mk("ite", (v, hi, lo), k, hi.scalar and lo.scalar)

def _abs_pattern(v, hi, lo):
    if v.op in ("lt0", "le0") and isnumeric(hi) and isnumeric(lo) and hi.op != "ite" and lo.op != "ite":
        p = v.args[0]
        if lo is p and hi is neg(p): return absv(p)
        if hi is p and lo is neg(p): return neg(absv(p))
    return None

_KO = {"bool": 0, "int": 1, "real": 2, "cplx": 3, "any": 4, "none": 5, "tup": 6}
def _kmax(a, b):
    if a == b: return a
    if a in ("none", "tup") or b in ("none", "tup"): return "any"
    return a if _KO[a] >= _KO[b] else b

def isnumeric(t):
    return t.kind in ("bool", "int", "real", "cplx", "any") and t.op not in ("const", "tup")

def top(t):
    return t.args[0] if t.op == "ite" else None

def cof(t, v, val):
    """cofactor of diagram t for atom v (v not above the top of t)"""
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    if t is v: return TRUE if val else FALSE
    return t

def _boolexp(c):
    """a boolean term as a diagram with TRUE/FALSE leaves"""
    if c.op in ("bool", "ite"): return c
    return c

def _topof(ts):
    best = None
    for t in ts:
        v = None
        if t.op == "ite": v = t.args[0]
        if v is not None and (best is None or v.id < best.id): best = v
    return best

def ite(c, a, b):
    """if c then a else b"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op != "ite":
        c0 = c
        if c0.op == "num":
            return a if not c0.args[0].zero() else b
        c = _mkraw(c0)
    key = (c, a, b)
    r = _memo_ite.get(key)
    if r is not None: return r
    _tick()
    v = _topof3(c, a, b)
    ch, cl = _c(c, v)
    ah, al = _c(a, v)
    bh, bl = _c(b, v)
    ah, bh = assume(ah, v, True), assume(bh, v, True)
    al, bl = assume(al, v, False), assume(bl, v, False)
    ch, cl = assume(ch, v, True), assume(cl, v, False)
    r = _node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _memo_ite[key] = r
    return r

class _Raw: pass

def _mkraw(atom):
    return _mk("ite", (atom, TRUE, FALSE), "bool", True)

def _topof3(c, a, b):
    best = None
    for t in (c, a, b):
        if t.op == "ite":
            v = t.args[0]
            if best is None or v.id < best.id: best = v
        elif t.kind == "bool" and t.op not in ("bool",) :
            # bare boolean atom as a value
            if best is None or t.id < best.id: best = t
    return best

def _c(t, v):
    if t.op == "ite" and t.args[0] is v: return t.args[1], t.args[2]
    if t is v: return TRUE, FALSE
    return t, t

_memo_as = {}
def assume(t, v, val):
    """simplify t knowing that atom v has truth value val"""
    if t.op == "tup":
        return _mk("tup", tuple(assume(a, v, val) if isinstance(a, Term) else a for a in t.args), t.kind)
    if t.op != "ite":
        if t.kind == "bool" and t.op != "bool":
            r = implied(v, val, t)
            if r is not None: return TRUE if r else FALSE
        return t
    key = (t, v, val)
    r = _memo_as.get(key)
    if r is not None: return r
    w, h, l = t.args
    i = implied(v, val, w)
    if i is True: r = assume(h, v, val)
    elif i is False: r = assume(l, v, val)
    else:
        h2, l2 = assume(h, v, val), assume(l, v, val)
        r = t if (h2 is h and l2 is l) else ite(w, h2, l2)
    _memo_as[key] = r
    return r

def implied(v, val, w):
    """truth value of atom w knowing atom v == val, or None"""
    if v is w: return val
    if v.op in ("lt0", "le0", "eq0") and w.op in ("lt0", "le0", "eq0"):
        # compare polynomials that differ by a constant (same or opposite sign)
        for sgn in (1, -1):
            q = w.args[0] if sgn == 1 else neg(w.args[0])
            d = sub(q, v.args[0])          # q = p + d
            if d.op == "num" and d.args[0].im == 0:
                dd = d.args[0].re
                # knowledge on p
                lo = hi = None; los = his = False   # strict flags
                if v.op == "lt0":
                    if val: hi, his = 0, True
                    else: lo, los = 0, False
                elif v.op == "le0":
                    if val: hi, his = 0, False
                    else: lo, los = 0, True
                else:
                    if val: lo = hi = 0
                    else:
                        if dd == 0:
                            if w.op == "eq0": return False
                        continue
                # interval of q = p + dd ; for sgn -1 w is about -q
                if lo is not None: lo = lo + dd
                if hi is not None: hi = hi + dd
                if sgn == -1:
                    lo, hi, los, his = (-hi if hi is not None else None), (-lo if lo is not None else None), his, los
                if w.op == "lt0":
                    if hi is not None and (hi < 0 or (hi == 0 and his)): return True
                    if lo is not None and lo >= 0: return False
                elif w.op == "le0":
                    if hi is not None and hi <= 0: return True
                    if lo is not None and (lo > 0 or (lo == 0 and los)): return False
                else:
                    if lo is not None and hi is not None and lo == hi == 0: return True
                    if lo is not None and (lo > 0 or (lo == 0 and los)): return False
                    if hi is not None and (hi < 0 or (hi == 0 and his)): return False
        return None
    if v.op == "eq" and w.op == "eq" and val:
        # same left side, different constants
        a, b = v.args; c, d = w.args
        for x, y in ((a, b), (b, a)):
            for p, q in ((c, d), (d, c)):
                if x is p and is_const(y) and is_const(q) and y is not q: return False
    if v.op == "eq" and w.op == "isnone" and val:
        a, b = v.args
        if (a is w.args[0] and is_const(b) and b is not NONE) or (b is w.args[0] and is_const(a) and a is not NONE): return False
    if v.op == "isnone" and val and w.op == "eq":
        a, b = w.args
        if (a is v.args[0] and is_const(b)) or (b is v.args[0] and is_const(a)): return False
    return None

def lift(f, *ts):
    """apply f leaf-wise on decision diagrams"""
    v = None
    for t in ts:
        if t.op == "ite" and (v is None or t.args[0].id < v.id): v = t.args[0]
    if v is None: return f(*ts)
    _tick()
    hi = [assume(cof(t, v, True), v, True) for t in ts]
    lo = [assume(cof(t, v, False), v, False) for t in ts]
    return ite(v, lift(f, *hi), lift(f, *lo))

_memo_re = {}
def restrict(f, care):
    """f simplified where only its values under condition `care` matter"""
    if care is TRUE or care is FALSE: return f
    if f.op == "tup": return _mk("tup", tuple(restrict(a, care) if isinstance(a, Term) else a for a in f.args), f.kind)
    if f.op != "ite" and not (f.kind == "bool" and f.op != "bool"): return f
    key = (f, care)
    r = _memo_re.get(key)
    if r is not None: return r
    _tick()
    v = _topof3(f, care, TRUE)
    ch, cl = _c(care, v)
    ch, cl = assume(ch, v, True), assume(cl, v, False)
    fh, fl = _c(f, v)
    fh, fl = assume(fh, v, True), assume(fl, v, False)
    if ch is FALSE: r = restrict(fl, cl)
    elif cl is FALSE: r = restrict(fh, ch)
    elif fh is fl: r = restrict(fh, or_(ch, cl))
    else: r = ite(v, restrict(fh, ch), restrict(fl, cl))
    _memo_re[key] = r
    return r

def leaves(t, acc=None):
    acc = [] if acc is None else acc
    if t.op == "ite":
        leaves(t.args[1], acc); leaves(t.args[2], acc)
    else: acc.append(t)
    return acc

def has_ite(t): return t.op == "ite"

# ------------------------------------------------------------------ booleans
def boolean(t):
    """truth value of a term"""
    return lift(_boolean, t)

def _boolean(t):
    if t.op == "bool": return t
    if t.op == "num": return FALSE if t.args[0].zero() else TRUE
    if t is NONE: return FALSE
    if t.op == "const": return TRUE if t.args[1] else FALSE
    if t.op == "tup": return TRUE if t.args else FALSE
    if t.op in ("fn", "module", "cls", "bm", "type"): return TRUE
    if t.kind == "bool": return t
    if t.kind == "int" : return not_(eq(t, num(0)))
    return _mk("truth", (t,), "bool", True)

def not_(c):
    return ite(c, FALSE, TRUE)
def and_(a, b): return ite(a, b, FALSE)
def or_(a, b): return ite(a, TRUE, b)

# ------------------------------------------------------------------ polynomials
def to_poly(t):
    if t.op == "num":
        return {} if t.args[0].zero() else {(): t.args[0]}
    if t.op == "poly": return dict(t.args[0])
    if t.op == "bool": return {(): ONE} if t.args[0] else {}
    return {((t, Fraction(1)),): ONE}

def from_poly(d):
    d = {m: c for m, c in d.items() if not c.zero()}
    if not d: return num(0)
    # infinite values are not distinguished by sign or phase
    if any(a.op == "special" and a.args[0] == "inf" for m in d for a, e in m if e > 0): return _mk("special", ("inf",), "real", True)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c)
        if c == ONE and len(m) == 1 and m[0][1] == 1: return m[0][0]
    kind = "int"; scalar = True
    for m, c in d.items():
        if not c.real(): kind = _kmax(kind, "cplx")
        elif c.re.denominator != 1: kind = _kmax(kind, "real")
        for a, e in m:
            k = a.kind if a.kind not in ("bool",) else "int"
            if k in ("none", "tup"): k = "any"
            if k == "int" and e < 0: k = "real"
            kind = _kmax(kind, k)
            scalar = scalar and a.scalar
    if kind == "cplx" and _selfconj(d): kind = "real"
    items = tuple(sorted(d.items(), key=_mkey))
    return _mk("poly", (items,), kind, scalar)

def _selfconj(d):
    for m, c in d.items():
        for a, e in m:
            if a.kind in ("any",): return False
    try:
        d2 = {}
        for m, c in d.items():
            m2 = {}
            for a, e in m:
                b = _conj_atom(a)
                if b.op == "poly": return False
                m2[b] = m2.get(b, 0) + e
            mm = _mono(m2)
            d2[mm] = c.conj()
        return d2 == d
    except Undecided:
        return False

def _mkey(it):
    m, c = it
    return tuple((a.id, e) for a, e in m)

def _mono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))

def add(a, b): return lift(_add, a, b)
def _add(a, b):
    if a.op == "num" and a.args[0].zero() and isnumeric(b): return _unbool(b)
    if b.op == "num" and b.args[0].zero() and isnumeric(a): return _unbool(a)
    p = to_poly(a); 
    for m, c in to_poly(b).items():
        p[m] = p[m] + c if m in p else c
    return from_poly(p)
def _unbool(t):
    return num(int(t.args[0])) if t.op == "bool" else t

def neg(a): return lift(lambda x: from_poly({m: -c for m, c in to_poly(x).items()}), a)
def sub(a, b): return lift(lambda x, y: _add(x, from_poly({m: -c for m, c in to_poly(y).items()})), a, b)

def mul(a, b): return lift(_mul, a, b)
def _mul(a, b):
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) > 4000: raise Undecided("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = {}
            for a_, e in m1: d[a_] = d.get(a_, 0) + e
            for a_, e in m2: d[a_] = d.get(a_, 0) + e
            m = _mono(d)
            c = c1 * c2
            r[m] = r[m] + c if m in r else c
    return from_poly(_fix_pows(r))

def _fix_pows(r):
    """(sum)^k atoms with positive integer exponent are expanded"""
    for m in r:
        if any(a.op == "grp" and a.args[0].op == "num" and e.denominator == 1 for a, e in m):
            o = {}
            for m, c in r.items():
                k = []
                for a, e in m:
                    if a.op == "grp" and a.args[0].op == "num" and e.denominator == 1:
                        g = a.args[0].args[0] if e > 0 else a.args[0].args[0].inv()
                        for _ in range(abs(int(e))): c = c * g
                    else: k.append((a, e))
                k = tuple(k)
                o[k] = o[k] + c if k in o else c
            r = o
            break
    out = {}; todo = False
    for m, c in r.items():
        for a_, e in m:
            if a_.op == "grp" and e > 0 and e.denominator == 1: todo = True
    if not todo: return r
    acc = num(0)
    for m, c in r.items():
        t = num(c)
        for a_, e in m:
            if a_.op == "grp" and e > 0 and e.denominator == 1:
                for _ in range(int(e)): t = _mul(t, a_.args[0])
            else:
                t = _mul(t, from_poly({((a_, e),): ONE}))
        acc = _add(acc, t)
    return to_poly(acc)

def div(a, b): return lift(lambda x, y: _mul(x, _pow(y, Fraction(-1))), a, b)

def power(a, e):
    def f(x, y):
        if y.op == "num" and y.args[0].im == 0: return _pow(x, y.args[0].re)
        return _mk("powx", (x, y), _kmax(x.kind, y.kind), x.scalar and y.scalar)
    return lift(f, a, e)

def _pow(x, e):
    e = Fraction(e)
    p = to_poly(x)
    if e == 0: return num(1)
    if e == 1: return x
    if not p:
        if e > 0: return num(0)
        return _mk("special", ("1/0",), "real", True)
    if e.denominator == 1 and e > 0:
        if len(p) ** int(e) > 3000: raise Undecided("power too large")
        r = x
        for _ in range(int(e) - 1): r = _mul(r, x)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            ci = c.inv()
            cc = ONE
            for _ in range(int(-e)): cc = cc * ci
            return from_poly(_fix_pows({_mono({a: k * e for a, k in m}): cc}))
        if len(m) == 1 and c == ONE and (m[0][1].denominator != 1 or m[0][1] == 1):
            return from_poly({((m[0][0], m[0][1] * e),): ONE})
        if m == () and c.im == 0 and c.re > 0 and e.denominator == 2:
            from math import isqrt
            n_, d_ = c.re.numerator, c.re.denominator
            if isqrt(n_) ** 2 == n_ and isqrt(d_) ** 2 == d_:
                return _pow(num(G(Fraction(isqrt(n_), isqrt(d_)))), Fraction(e.numerator))
    # general base: normalise leading coefficient for integer exponents
    if e.denominator == 1:
        lead = sorted(p.items(), key=_mkey)[0][1]
        q = from_poly({m: c * lead.inv() for m, c in p.items()})
        g = _mk("grp", (q,), q.kind, q.scalar)
        return _mul(_pow(num(lead), e), from_poly({((g, e),): ONE}))
    g = _mk("grp", (x,), x.kind, x.scalar)
    return from_poly({((g, e),): ONE})

REALFN = {"abs", "angle", "floor", "round", "len", "shape", "size", "floordiv", "mod", "cos", "sin", "arctan2", "log", "exp", "isnan", "max", "min"}

def conj(t): return lift(_conj, t)
def _conj(t):
    if t.kind in ("bool", "int", "real") : return t
    p = to_poly(t)
    if t.op not in ("poly", "num"): return _conj_atom(t)
    acc = num(0)
    for m, c in p.items():
        x = num(c.conj())
        for a, e in m:
            x = _mul(x, from_poly({((_conj_atom(a), e),): ONE}) if _conj_atom(a).op != "poly" else _pow(_conj_atom(a), e))
        acc = _add(acc, x)
    return acc

def _conj_atom(a):
    if a.kind in ("bool", "int", "real"): return a
    if a.op == "conj": return a.args[0]
    if a.op in ("fun",) and a.args[0] in ("exp", "cos", "sin") :
        return _mk("fun", (a.args[0],) + tuple(_conj(x) for x in a.args[1:]), a.kind, a.scalar)
    if a.op == "grp": return _mk("grp", (_conj(a.args[0]),), a.kind, a.scalar)
    return _mk("conj", (a,), a.kind, a.scalar)

def real(t):
    return lift(lambda x: x if x.kind in ("bool", "int", "real") else _mul(num(G(Fraction(1, 2))), _add(x, _conj(x))), t)
def imag(t):
    return lift(lambda x: num(0) if x.kind in ("bool", "int", "real") else _mul(num(G(0, Fraction(-1, 2))), _add(x, _mul(num(-1), _conj(x)))), t)

def absv(t): return lift(_absv, t)
def _absv(t):
    if t.op == "num":
        g = t.args[0]
        if g.im == 0: return num(abs(g.re))
        return _pow(num(g.re * g.re + g.im * g.im), Fraction(1, 2))
    if t.op == "fun" and t.args[0] == "abs": return t
    p = to_poly(t)
    lead = sorted(p.items(), key=_mkey)[0][1]
    if lead.im == 0 and lead.re < 0: t = neg(t)
    k = "real" if t.kind == "cplx" else t.kind
    return _mk("fun", ("abs", t), k, t.scalar)

def fun(name, *args, kind=None):
    def f(*a):
        k = kind or ("real" if name in REALFN and all(x.kind in ("int", "real", "bool") for x in a) else "any")
        if name in ("exp", "cos", "sin", "sqrt") and kind is None:
            k = "real" if all(x.kind in ("int", "real", "bool") for x in a) else ("cplx" if a[0].kind == "cplx" else "any")
        if name == "cos":
            # even function: normalise sign
            x = a[0]; p = to_poly(x)
            if p:
                lead = sorted(p.items(), key=_mkey)[0][1]
                if lead.im == 0 and lead.re < 0: a = (neg(x),)
        return _mk("fun", (name,) + tuple(a), k, all(x.scalar for x in a))
    return lift(f, *args)

def op(name, *args, kind="any", scalar=False, lifted=True):
    """uninterpreted operation"""
    if name in ("land", "lor", "lnot"): return lift(lambda *a: _logic(name, a), *args)
    if lifted:
        return lift(lambda *a: _mk(name, tuple(a), kind, scalar), *args)
    return _mk(name, tuple(args), kind, scalar)

def _logic(name, a):
    """element-wise connectives with constant operands"""
    if name == "lnot":
        x = a[0]
        if x.op == "bool": return FALSE if x is TRUE else TRUE
        if x.op == "lnot": return x.args[0]
        return _mk("lnot", a, "bool", False)
    unit, zero = (TRUE, FALSE) if name == "land" else (FALSE, TRUE)
    if any(x is zero for x in a): return zero
    a = tuple(x for x in a if x is not unit)
    if not a: return unit
    if len(a) == 1: return a[0]
    return _mk(name, a, "bool", False)

# ------------------------------------------------------------------ comparisons
def _normcmp(p):
    """(sign, q): q normalised with p = c*q, c>0 -> sign 1 ; c<0 -> sign -1"""
    d = to_poly(p)
    nonconst = {m: c for m, c in d.items() if m != ()}
    lead = sorted(nonconst.items(), key=_mkey)[0][1]
    if lead.im != 0: return None
    if p.kind == "int":
        s = 1 if lead.re > 0 else -1
        q = p if s == 1 else neg(p)
        return s, q
    s = 1 if lead.re > 0 else -1
    if all(any(a is PI for a, e in m) for m in d): d = to_poly(_mul(p, _pow(PI, Fraction(-1))))
    q = from_poly({m: c * G(abs(lead.re)).inv() for m, c in d.items()})
    return s, (q if s == 1 else neg(q))

def lt(a, b): return lift(_lt, a, b)
def _lt(a, b):
    p = _add(a, neg(b))
    if p.op == "num" and p.args[0].im == 0: return TRUE if p.args[0].re < 0 else FALSE
    if not isnumeric(a) or not isnumeric(b):
        return _mk("ltx", (a, b), "bool", True)
    return _cmp0("lt", p)
def le(a, b): return lift(_le, a, b)
def _le(a, b):
    p = _add(a, neg(b))
    if p.op == "num" and p.args[0].im == 0: return TRUE if p.args[0].re <= 0 else FALSE
    return _cmp0("le", p)

def _content(d):
    """greatest common divisor of the coefficients of the non-constant part, 1 unless all are integers"""
    g = 0
    for m, c in d.items():
        if c.im != 0 or c.re.denominator != 1: return 1
        if m != (): g = gcd(g, int(c.re))
    return g or 1

def _intred(x):
    """y with (x < 0) == (y < 0) for integer x: the common factor of the coefficients divided out"""
    d = to_poly(x)
    g = _content(d)
    if g == 1: return x
    c = int(d[()].re) if () in d else 0
    y = {m: k * G(Fraction(1, g)) for m, k in d.items() if m != ()}
    k = -((-c - 1) // g) - 1
    if k: y[()] = G(k)
    return from_poly(y)

def _cmp0(o, p):
    r = _normcmp(p)
    if r is None: return _mk(o + "0", (p,), "bool", p.scalar)
    s, q = r
    if q.kind == "int":
        # integers: only lt0 with normalised constant:  q<=0 == q-1<0
        if s == 1:
            return _mk("lt0", (_intred(q if o == "lt" else _add(q, num(-1))),), "bool", q.scalar)
        # -q < 0  == q > 0 == not q <= 0 == not (q-1<0)
        a = _mk("lt0", (_intred(_add(q, num(-1)) if o == "lt" else q),), "bool", q.scalar)
        return not_(a)
    if s == 1: return _mk(o + "0", (q,), "bool", q.scalar)
    return not_(_mk("le0" if o == "lt" else "lt0", (q,), "bool", q.scalar))

def eq(a, b): return lift(_eq, a, b)
NEVERNONE = {"poly", "num", "bool", "tup", "fn", "zeros", "empty", "ref", "slice", "iv", "bv", "fun", "shape", "module", "cls", "bm", "arr"}
def _eq(a, b):
    if a is b: return TRUE
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args): return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args): r = and_(r, eq(x, y))
        return r
    if is_const(a) and is_const(b):
        if a.op == "bool" and b.op == "num" or a.op == "num" and b.op == "bool":
            return TRUE if num(int(pyval(a))) is num(int(pyval(b))) else FALSE
        return FALSE
    if NONE in (a, b):
        o = b if a is NONE else a
        return _isnone(o)
    if b is TRUE and a.kind == "bool": return a
    if a is TRUE and b.kind == "bool": return b
    if b is FALSE and a.kind == "bool": return not_(a)
    if a is FALSE and b.kind == "bool": return not_(b)
    if a.kind in ("int", "real", "cplx") and b.kind in ("int", "real", "cplx"):
        p = _add(a, neg(b))
        if p.op == "num": return TRUE if p.args[0].zero() else FALSE
        if p.kind == "int":
            d = to_poly(p); g = _content(d)
            if g > 1:
                if () in d and int(d[()].re) % g: return FALSE
                p = from_poly({m: c * G(Fraction(1, g)) for m, c in d.items()})
        if p.op in ("dim", "len", "size") and p.kind == "int": return _lt(p, num(1))
        r = _normcmp(p)
        return _mk("eq0", (r[1] if r else p,), "bool", p.scalar)
    if a.id > b.id: a, b = b, a
    return _mk("eq", (a, b), "bool", True)

ARRAYFN = {"concatenate", "stack", "moveaxis", "sum", "mean", "nanmean", "nansum", "broadcast_to", "tile", "repeat", "roll", "take", "diff", "cumsum", "convolve", "abs", "sqrt", "exp"}
def isnone(t): return lift(_isnone, t)
def _isnone(t):
    if t is NONE: return TRUE
    if t.op == "np" and t.args[0] in ARRAYFN: return FALSE
    if t.op in NEVERNONE or t.op == "const" or t.kind in ("int", "real", "cplx", "bool", "tup"): return FALSE
    return _mk("isnone", (t,), "bool", True)

# ------------------------------------------------------------------ substitution
def subst(t, m, rebuild=None):
    """substitute atoms; rebuilds through the normalising constructors"""
    memo = {}
    def go(t):
        if t in m: return m[t]
        r = memo.get(t)
        if r is not None: return r
        if t.op in ("sym", "num", "bool", "iv", "bv") or (t.op == "const"): r = t
        elif t.op == "poly":
            r = num(0)
            for mo, c in t.args[0]:
                x = num(c)
                for a, e in mo: x = mul(x, power(go(a), num(G(e))))
                r = add(r, x)
        elif t.op == "ite":
            r = ite(go(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif t.op == "tup": r = tup(*[go(a) for a in t.args])
        elif t.op == "lt0": r = lt(go(t.args[0]), num(0))
        elif t.op == "le0": r = le(go(t.args[0]), num(0))
        elif t.op == "eq0": r = eq(go(t.args[0]), num(0))
        elif t.op == "eq": r = eq(go(t.args[0]), go(t.args[1]))
        elif t.op == "isnone": r = isnone(go(t.args[0]))
        elif t.op == "truth": r = boolean(go(t.args[0]))
        elif t.op == "conj": r = conj(go(t.args[0]))
        elif t.op == "grp": r = _mk("grp", (go(t.args[0]),), t.kind, t.scalar)
        elif t.op == "fun" and t.args[0] == "abs": r = absv(go(t.args[1]))
        elif t.op == "fun":
            args = tuple(go(a) for a in t.args[1:])
            r = rebuild(t, (t.args[0],) + args) if rebuild is not None else None
            if r is None: r = fun(t.args[0], *args, kind=t.kind if t.kind == "int" else None)
        else:
            args = tuple(_sub_any(a, go) for a in t.args)
            if args == t.args: r = t
            elif rebuild is not None and (rr := rebuild(t, args)) is not None: r = rr
            else: r = _mk(t.op, args, t.kind, t.scalar)
        memo[t] = r
        return r
    return go(t)

def _sub_any(a, go):
    if isinstance(a, Term): return go(a)
    if isinstance(a, tuple): return tuple(_sub_any(b, go) for b in a)
    return a

def walk(t, seen=None):
    """all subterms"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, Term) or x in seen: continue
        seen.add(x)
        st.extend(x.args)
    return seen

def atoms_of_cond(c):
    r = set(); st = [c]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite": r.add(x.args[0]); st += [x.args[1], x.args[2]]
        elif x.kind == "bool" and x.op != "bool": r.add(x)
    return r

# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple): return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth > 14: return "..."
    d = depth + 1
    o, a = t.op, t.args
    if o == "num": return repr(a[0])
    if o == "bool": return str(a[0])
    if o == "const": return repr(a[1])
    if o == "sym": return a[0]
    if o == "iv": return "i%s" % a[0]
    if o == "bv": return "k%s" % a[0]
    if o == "special": return a[0]
    if o == "tup": return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d) + ("" if e == 1 else "^%s" % e) for x, e in m)
            cs = repr(c)
            out.append(cs if not s else (s if c == ONE else ("-" + s if c == G(-1) else cs + "*" + s)))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if o == "ite": return "if{%s ? %s : %s}" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "lt0": return "%s<0" % show(a[0], d)
    if o == "le0": return "%s<=0" % show(a[0], d)
    if o == "eq0": return "%s==0" % show(a[0], d)
    if o == "eq": return "%s==%s" % (show(a[0], d), show(a[1], d))
    if o == "grp": return "[%s]" % show(a[0], d)
    if o == "fun": return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if o == "idx": return "%s[%s]" % (show(a[0], d), ", ".join(show(x, d) for x in a[1]))
    if o == "np": return "np.%s(%s)" % (a[0], ", ".join(["%s=%s" % (k, show(v, d)) for k, v in zip(a[1], a[2])] + [show(v, d) for v in a[3]]))
    if o == "slice": return ":".join("" if x is NONE else show(x, d) for x in a)
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))

def _refun(t, args):
    n = t.args[0]
    if n in ("min", "max") and len(args) == 2:
        def f(a, b):
            if a is b: return a
            d = sub(a, b)
            if d.op == "num" and d.args[0].im == 0:
                less = d.args[0].re <= 0
                return (a if less else b) if n == "min" else (b if less else a)
            if a.id > b.id: a, b = b, a
            return _mk("fun", (n, a, b), t.kind, t.scalar)
        return lift(f, *args)
    if n == "floordiv" and all(a.op == "num" for a in args) and not args[1].args[0].zero():
        return num(pyval(args[0]) // pyval(args[1]))
    if n in ("exp", "cos", "sin", "sqrt"): return fun(n, *args)
    return fun(n, *args, kind=t.kind)
