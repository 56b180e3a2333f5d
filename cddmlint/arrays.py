"""Index / slice / store normal forms for array values."""
import re
from . import terms as T
from . import lin
from .terms import _mk, NONE, ELLIPSIS, num, Undecided

ELEMWISE = {"abs", "exp", "cos", "sin", "sqrt", "log", "arctan2", "floor", "isnan", "round", "int", "angle"}

def mkslice(a=NONE, b=NONE, c=NONE):
    if c.op == "num" and c.args[0] == T.ONE: c = NONE
    pos = c is NONE or (c.op == "num" and c.args[0].im == 0 and c.args[0].re > 0)
    if pos and a.op == "num" and a.args[0].zero(): a = NONE
    return _mk("slice", (a, b, c), "slice", True)

FULL = mkslice()

def slice_lift(a, b, c):
    return T.lift(mkslice, a, b, c)

def isint(t):
    return t.op not in ("slice",) and t is not NONE and t is not ELLIPSIS and (t.kind == "int") and t.scalar

def base_of(a):
    """the non elementwise root of an atom (None for scalars, a tuple when mixed)"""
    if a.scalar: return None
    if a.op == "conj": return base_of(a.args[0])
    if a.op == "fun" and a.args[0] in ELEMWISE:
        bs = {base_of(x) for x in a.args[1:]} - {None}
        return bs.pop() if len(bs) == 1 else (None if not bs else "mixed")
    if a.op in ("poly", "grp", "num"):
        bs = bases(a) - {None}
        return bs.pop() if len(bs) == 1 else (None if not bs else "mixed")
    return a

def bases(t):
    if t.op == "poly":
        r = set()
        for m, c in t.args[0]:
            for a, e in m: r.add(base_of(a))
        return r
    if t.op == "grp": return bases(t.args[0])
    if t.op == "num": return {None}
    return {base_of(t)}

def leafbases(t):
    """array operands of an elementwise expression"""
    r = set(); st = [t]
    while st:
        x = st.pop()
        if x.scalar or x.op == "num": continue
        if x.op == "poly": st += [a for m, c in x.args[0] for a, e in m]
        elif x.op in ("grp", "conj"): st.append(x.args[0])
        elif x.op == "fun" and x.args[0] in ELEMWISE: st += list(x.args[1:])
        else: r.add(x)
    return r

class Arrays:
    """mixin; needs self.facts()"""

    def norm_path(s, path):
        out = []
        for p in path:
            if p is FULL or p.op == "slice" and all(x is NONE for x in p.args): p = FULL
            out.append(p)
        # several ellipsis are not allowed in python; drop trailing full slices when no ellipsis
        if ELLIPSIS in out:
            i = out.index(ELLIPSIS)
            # full slices before an ellipsis are redundant when next to it
            while i > 0 and out[i - 1] is FULL: out.pop(i - 1); i -= 1
            # leading "..." followed by nothing -> drop
            if i == len(out) - 1: out.pop()
            elif all(p is FULL for p in out[i + 1:]) and not out[:i] and False: pass
        if ELLIPSIS not in out:
            while out and out[-1] is FULL: out.pop()
        elif all(p is FULL or p is ELLIPSIS for p in out): out = []
        return tuple(out)

    def idx(s, base, path):
        """base[path]"""
        path = tuple(path)
        if base.op == "ite" and path and any(s.arraycond(c) for c in T.atoms_of_cond(base)): return s._idx_sel(base, path)
        ks = [k for k, p in enumerate(path) if not s.maskpath(p)]
        def f(b, *p):
            q = list(path)
            for k, x in zip(ks, p): q[k] = x
            return s._idx(b, tuple(q))
        return T.lift(f, base, *[path[k] for k in ks])

    def maskpath(s, p):
        """a computed boolean mask used as an index: not a choice between two indices"""
        return p.op == "ite" and p.kind == "bool" and any(s.arraycond(c) for c in T.atoms_of_cond(p))

    def arraycond(s, c):
        """does a condition atom hold element by element?"""
        return c.op in ("lt0", "le0", "eq0") and not c.args[0].scalar and bool(leafbases(c.args[0]) - {None}) or c.op in ("np_isnan", "np_isfinite", "lor", "land", "lnot") and any(not x.scalar for x in c.args)

    def _idx_sel(s, base, path):
        """element of an elementwise selection: conditions are indexed with the values"""
        ls = set()
        for c in T.atoms_of_cond(base):
            if s.arraycond(c): ls |= leafbases(c.args[0])
        for x in T.leaves(base):
            if not x.scalar: ls |= leafbases(x)
        shs = {s.shape_terms(x) for x in ls}
        if len(shs) != 1 or (None in shs and len(ls) > 1): return _mk("idx", (base, tuple(path)), "any", False)
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.op == "ite":
                c = t.args[0]
                cc = T._mkraw(c) if not s.arraycond(c) else s._cond_idx(c, path)
                r = T.ite(cc, go(t.args[1]), go(t.args[2]))
            else: r = t if t.scalar else s.idx(t, path)
            memo[t] = r
            return r
        return go(base)

    def _cond_idx(s, c, path):
        if c.op == "lt0": return T.lt(s.idx(c.args[0], path), num(0))
        if c.op == "le0": return T.le(s.idx(c.args[0], path), num(0))
        if c.op == "eq0": return T.eq(s.idx(c.args[0], path), num(0))
        return _mk(c.op, tuple(s.idx(x, path) for x in c.args), "bool", False)

    def _idx(s, b, path):
        path = s.norm_path(path)
        if not path: return b
        if b.op == "tup":
            if len(path) == 1:
                p = path[0]
                if p.op == "num":
                    i = T.pyval(p)
                    if -len(b.args) <= i < len(b.args): return b.args[i]
                    raise Undecided("tuple index out of range")
                if p.op == "slice" and all(x is NONE or x.op == "num" for x in p.args):
                    return T.tup(*b.args[slice(*[None if x is NONE else T.pyval(x) for x in p.args])])
                if p.kind == "bool":
                    pass
            elif path[0].op == "num":
                return s.idx(s._idx(b, path[:1]), path[1:])
            return _mk("idx", (b, path), "any", False)
        if b.op == "num" or (b.op == "special"): return b
        if b.op == "full": return b.args[0]
        if b.op == "poly" or b.op == "grp":
            bs = bases(b) - {None}
            if "mixed" not in bs and len(bs) == 1 and next(iter(bs)) is not b:
                return s._push(b, path)
            if not bs: return b
            if b.op == "poly" and s._distributes(b, path): return s._push(b, path)
        elif b.op == "conj": return T.conj(s.idx(b.args[0], path))
        elif b.op == "fun" and b.args[0] in ELEMWISE and (base_of(b) not in ("mixed", b) or s._distributes(b, path)):
            return s._push(b, path)
        elif b.op == "comp" and len(path) >= 1 and b.args[2] is T.TRUE and isint(path[0]):
            i = path[0]
            if i.op == "num" and T.pyval(i) < 0: i = T.add(b.args[0], i)
            e = T.subst(b.args[1], {b.args[3]: i}, s.rebuild)
            return s.idx(e, path[1:]) if path[1:] else e
        elif b.op == "arange" and len(path) == 1 and isint(path[0]):
            i = path[0]
            if i.op == "num" and T.pyval(i) < 0: i = T.add(b.args[0], i)
            return i
        elif b.op == "store":
            r = s._read_store(b, path)
            if r is not None: return r
        elif b.op == "lens" and b.args[1][0] == "transpose" and ELLIPSIS not in path and all(isint(p) for p in path) and len(path) == len(b.args[1][1]):
            pm = [T.pyval(k) for k in b.args[1][1]]
            q = [None] * len(path)
            for k, p in zip(pm, path): q[k] = p
            return s._idx(b.args[0], tuple(q))
        elif b.op == "idx":
            p0 = b.args[1]
            if ELLIPSIS in p0 and ELLIPSIS not in path and all(isint(p) for p in path) and NONE not in p0:
                nd = s.ndim_of(b.args[0])
                if nd is not None and nd >= len(p0) - 1:
                    k = p0.index(ELLIPSIS); p0 = p0[:k] + (FULL,) * (nd - len(p0) + 1) + p0[k + 1:]
            r = s._compose(p0, path, b.args[0])
            if r is not None: return s._idx(b.args[0], r)
        nd = s.ndim_of(b)
        path = s._canon_ints(b, path)
        sc = nd is not None and len(path) == nd and all(isint(p) for p in path)
        return _mk("idx", (b, path), b.kind if b.kind in ("int", "real", "cplx", "bool") else "any", sc)

    def _distributes(s, b, path):
        """indexing an elementwise expression of several arrays acts on every array"""
        if path[0] is ELLIPSIS and all(p is NONE for p in path[1:]): return True
        ls = leafbases(b)
        if not ls: return False
        shs = {s.shape_terms(x) for x in ls}
        return len(shs) == 1 and None not in shs

    def _canon_ints(s, b, path):
        """negative integer index from the end: n-1 form is rewritten to -1 form"""
        if ELLIPSIS in path: return path
        out = []
        ax = 0
        for p in path:
            if p is NONE: out.append(p); continue
            if isint(p) and p.op == "poly":
                d = s.dim(b, ax)
                q = T.sub(p, d)
                if q.op == "num" and T.pyval(q) < 0: p = q
            out.append(p)
            ax += 1
        return tuple(out)

    def _push(s, b, path):
        m = {}
        def go(t):
            if t.scalar: return t
            if t.op == "poly":
                r = num(0)
                for mo, c in t.args[0]:
                    x = num(c)
                    for a, e in mo: x = T.mul(x, T.power(go(a), num(T.G(e))))
                    r = T.add(r, x)
                return r
            if t.op == "grp": return go(t.args[0])
            if t.op == "conj": return T.conj(go(t.args[0]))
            if t.op == "fun" and t.args[0] == "abs": return T.absv(go(t.args[1]))
            if t.op == "fun" and t.args[0] in ELEMWISE: return T.fun(t.args[0], *[go(x) for x in t.args[1:]])
            if t.op == "num": return t
            return s.idx(t, path)
        return go(b)

    # ------------------------------------------------------------- path algebra
    def _compose(s, p, q, base):
        """path r with base[p][q] == base[r] or None"""
        if any(x.op not in ("slice",) and not isint(x) and x is not NONE and x is not ELLIPSIS for x in p): return None
        pe, qe = ELLIPSIS in p, ELLIPSIS in q
        if NONE in p or NONE in q:
            # trailing newaxis on a path
            return None
        if not pe:
            # consume from the left
            if qe:
                i = q.index(ELLIPSIS)
                if i > 0: pass
                # base axes fixed by p from the left, q axes from the right
                if all(isint(x) for x in p) and i == 0: return tuple(p) + tuple(q)
                return None
            out = []; q = list(q)
            for x in p:
                if isint(x): out.append(x); continue
                if q:
                    c = s._compose1(x, q.pop(0), base, len(out))
                    if c is None: return None
                    out.append(c)
                else: out.append(x)
            return tuple(out + q)
        # p has an ellipsis
        i = p.index(ELLIPSIS)
        tail = list(p[i + 1:])
        head = list(p[:i])
        if head: return None
        if qe:
            j = q.index(ELLIPSIS)
            if j != 0: return None
            qt = list(q[j + 1:])
            out = []
            for x in reversed(tail):
                if isint(x): out.append(x); continue
                if qt:
                    c = s._compose1(x, qt.pop(), base, None)
                    if c is None: return None
                    out.append(c)
                else: out.append(x)
            res = [ELLIPSIS] + qt + list(reversed(out))
            return tuple(res)
        return None

    def _compose1(s, sl, q, base, ax):
        """sl: slice on one axis, then q on it"""
        a, b, c = sl.args
        if q is FULL: return sl
        if sl is FULL: return q
        F = s.facts()
        if c is not NONE:
            # x[a::-1][q] == x[a - q]
            if c.op == "num" and T.pyval(c) < 0 and isint(q) and lin.entails(F, T.neg(q)):
                a0 = num(-1) if a is NONE else a
                if a is NONE or lin.entails(F, T.add(a0, num(1))): return T.add(a0, T.mul(c, q))
            return None
        a0 = num(0) if a is NONE else a
        if not lin.entails(F, T.neg(a0)): return None
        if isint(q):
            if lin.entails(F, T.neg(q)): return T.add(a0, q)
            return None
        if q.op == "slice":
            d, e, f = q.args
            if f is not NONE: return None
            d0 = num(0) if d is NONE else d
            if not lin.entails(F, T.neg(d0)): return None
            if e is NONE: stop = b
            else:
                if not lin.entails(F, T.neg(e)): return None
                stop = T.add(a0, e)
                if b is not NONE:
                    # need a+e <= b
                    if not lin.entails(F, T.neg(b)): return None
                    if lin.entails(F, T.sub(stop, b)): pass
                    elif lin.entails(F, T.sub(b, stop)): stop = b
                    else: return None
            return mkslice(T.add(a0, d0), stop)
        return None

    # ------------------------------------------------------------- stores
    def mkstore(s, content, path, value):
        if len(path) == 1 and path[0].kind == "bool" and any(s.arraycond(c) for c in T.atoms_of_cond(path[0])):
            m = path[0]
            v = T.lift(lambda x: s._uncompress(x, m), value)
            if v is not None and not any(x.op == "nomask" for x in T.leaves(v)): return T.ite(m, v, content)
            return _mk("store", (content, tuple(path), value), "any", False)
        ks = [k for k, p in enumerate(path) if not s.maskpath(p)]
        def f(c, v, *p):
            q = list(path)
            for k, x in zip(ks, p): q[k] = x
            return s._store(c, tuple(q), v)
        return T.lift(f, content, value, *[path[k] for k in ks])

    def _uncompress(s, v, m):
        """w for an elementwise expression v == w[m]"""
        if v.scalar or v.op in ("num", "special"): return v
        ls = leafbases(v)
        r = {}
        for x in ls:
            if x.scalar or x.op in ("num", "special"): continue
            if x.op == "idx" and len(x.args[1]) == 1 and x.args[1][0] is m: r[x] = x.args[0]
            else: return _mk("nomask", (), "any", True)
        return T.subst(v, r, s.rebuild)

    def wholestore(s, c, v):
        """contents after v is stored to every element of c"""
        if s.peel and (v.op in ("num", "special", "bool") or v.scalar and v.op != "tup") and c.op in ("empty", "full", "store", "rec"):
            sh = s.shape_terms(c)
            if sh is not None: return _mk("full", (v, T.tup(*sh)), v.kind, False)
        return v

    def _litslice(s, p):
        """(start, stop, step) of a slice with constant ends"""
        r = []
        for x in p.args:
            if x is NONE: r.append(None)
            elif x.op == "num": r.append(T.pyval(x))
            else: return None
        return r if len(r) == 3 else None

    def _store(s, c, path, v):
        path = s.norm_path(path)
        if not path: return s.wholestore(c, v)
        if c.op == "tup" and len(path) == 1 and path[0].op == "slice" and s._litslice(path[0]) and (v.scalar or v.op == "num") and all(x.scalar or x.op == "num" for x in c.args):
            l = list(c.args)
            for i in range(*slice(*s._litslice(path[0])).indices(len(l))): l[i] = v
            return T.tup(*l)
        if c.op == "tup" and len(path) == 1 and path[0].op == "num":
            i = T.pyval(path[0])
            if -len(c.args) <= i < len(c.args):
                l = list(c.args); l[i] = v
                return T.tup(*l)
        path = s._canon_ints(c, path)
        # storing what is there already
        if c.op == "store":
            b0, p0, v0 = c.args
            if p0 == path: return s._store(b0, path, v)
            if s.covers(path, p0): return s._store(b0, path, v)
            if s.disjoint(path, p0, c) and _pkey(path) < _pkey(p0):
                return _mk("store", (s._store(b0, path, v), p0, v0), c.kind, False)
        if c.op == "num" and v is c: return c
        k = "bool" if c.kind == v.kind == "bool" else T._kmax(c.kind, v.kind) if c.kind in ("int", "real", "cplx") and v.kind in ("int", "real", "cplx", "bool") else "any"
        return _mk("store", (c, path, v), k, False)

    def covers(s, p, q):
        """every element addressed by q is addressed by p (conservative)"""
        p, q = list(p), list(q)
        if ELLIPSIS in p or ELLIPSIS in q or NONE in p or NONE in q: return p == q
        for i, x in enumerate(p):
            y = q[i] if i < len(q) else FULL
            if x is FULL or x is y: continue
            return False
        return True

    def disjoint(s, p, q, base):
        P, Q = list(p), list(q)
        if ELLIPSIS in P and ELLIPSIS in Q and P[0] is ELLIPSIS and Q[0] is ELLIPSIS:
            P, Q = P[:0:-1], Q[:0:-1]
        elif ELLIPSIS in P or ELLIPSIS in Q: return False
        for x, y in zip(P, Q):
            if NONE in (x, y): return False
            if s._disj1(x, y): return True
        return False

    def _disj1(s, x, y):
        F = s.facts()
        if isint(x) and isint(y):
            d = T.sub(x, y)
            neg = lambda t: t.op == "num" and T.pyval(t) < 0
            if d.op == "num": return T.pyval(d) != 0 and (neg(x) == neg(y))
            return lin.entails(F, T.add(d, num(1))) or lin.entails(F, T.sub(num(1), d))
        if isint(y): x, y = y, x
        if isint(x) and y.op == "slice":
            a, b, c = y.args
            if c is not NONE: return False
            if x.op == "num" and T.pyval(x) < 0: return False
            if not lin.entails(F, T.neg(x)): return False
            if a is not NONE and lin.entails(F, T.add(T.sub(x, a), num(1))) and not (a.op == "num" and T.pyval(a) < 0): return True
            if b is not NONE and lin.entails(F, T.neg(b)) and lin.entails(F, T.sub(b, x)): return True
            return False
        if x.op == "slice" and y.op == "slice":
            for (a, b, c), (d, e, f) in ((x.args, y.args), (y.args, x.args)):
                if c is NONE and f is NONE and b is not NONE and d is not NONE and lin.entails(F, T.neg(b)) and lin.entails(F, T.sub(b, d)): return True
        return False

    def _read_store(s, c, path):
        b0, p0, v0 = c.args
        nd = s.ndim_of(b0)
        if nd is not None and (ELLIPSIS in p0) and p0 != path:
            def full(p):
                if ELLIPSIS not in p: return p
                k = p.index(ELLIPSIS); return p[:k] + (FULL,) * (nd - len(p) + 1) + p[k + 1:]
            if NONE not in p0 and NONE not in path: p0, path = full(p0), full(path)
        if nd is not None and len(path) == nd == len(p0) and all(isint(x) for x in path) and not s.disjoint(path, p0, c) and v0.op != "num":
            # element of a stored block
            r, ok = [], True
            for x, y in zip(p0, path):
                if isint(x): ok = ok and x is y
                elif x is FULL: r.append(y)
                elif x.op == "slice" and s._in(y, x): r.append(T.sub(y, num(0) if x.args[0] is NONE else x.args[0]))
                else: ok = False
            if ok and r and s.ndim_of(v0) == len(r) and not any(d is num(1) for d in s.shape_terms(v0) or ()): return s._idx(v0, tuple(r))
        if p0 == path:
            return v0 if v0.op in ("num",) or not v0.scalar or all(isint(x) for x in path) else v0
        if s.disjoint(path, p0, c): return s._idx(b0, path)
        # a whole-axis store read at one element
        if ELLIPSIS not in path and ELLIPSIS not in p0 and NONE not in path and NONE not in p0:
            n = len(p0)
            if len(path) >= n and tuple(path[:n]) == tuple(p0) and all(isint(x) for x in p0): return s._idx(v0, path[n:])
            if len(path) >= n and all(x is y or (x.op == "slice" and s._in(y, x)) for x, y in zip(p0, path)) and (v0.op == "num"): return v0
        return None

    def _in(s, i, sl):
        a, b, c = sl.args
        if c is not NONE or not isint(i): return False
        F = s.facts()
        a0 = num(0) if a is NONE else a
        return lin.entails(F, T.sub(a0, i)) and (b is NONE or lin.entails(F, T.add(T.sub(i, b), num(1))))

    # ------------------------------------------------------------- shapes
    def shape_terms(s, t):
        """tuple of dimension terms of a value or None"""
        t0 = t
        if t in s.shapes: return s.shapes[t]
        if s.peel and t.op in ("np", "store", "poly", "full", "empty", "powx", "lens") or s.peel and t.op == "idx" and base_of(t) is not None:
            from .point import Pt
            if t in s.shaping: return None
            s.shaping.add(t)
            try: r = Pt(s, s.rootfacts).shape(t)
            except Undecided: r = None
            finally: s.shaping.discard(t)
            if r is not None: return r
        if t.op == "conj": return s.shape_terms(t.args[0])
        if t.op == "arange": return (t.args[0],)
        if t.op == "comp": return None
        if t.op == "tup" and t.args:
            shs = [() if a.scalar or a.op == "num" else s.shape_terms(a) for a in t.args]
            if shs[0] is not None and all(x == shs[0] for x in shs): return (num(len(t.args)),) + tuple(shs[0])
            return None
        if t.op == "store": return s.shape_terms(t.args[0])
        if t.op in ("poly", "grp", "fun"):
            bs = {base_of(a) for a in ([t] if t.op == "fun" else [a for m, c in (t.args[0] if t.op == "poly" else T.to_poly(t.args[0]).items()) for a, e in m])} - {None}
            if len(bs) == 1:
                b = bs.pop()
                if b != "mixed" and b is not t: return s.shape_terms(b)
            if bs and "mixed" not in bs:
                shs = {s.shape_terms(b) for b in bs}
                if len(shs) == 1: return shs.pop()
            return None
        if t.op == "idx":
            sh = s.shape_terms(t.args[0])
            if sh is None: return None
            return s.path_shape(sh, t.args[1])
        if t.op in ("lens", "unlens"):
            x, l = t.args if t.op == "lens" else t.args[::-1]
            if l[0] == "transpose" or l[0] == "moveaxis":
                sh = s.shape_terms(x)
                perm = s.perm(l, len(sh)) if sh is not None else None
                if perm is None: return None
                if t.op == "unlens": perm = tuple(perm.index(k) for k in range(len(perm)))
                return tuple(sh[k] for k in perm)
            if l[0] == "reshape" and t.op == "lens" and l[1].op == "tup" and all(d.op != "num" or T.pyval(d) >= 0 for d in l[1].args): return tuple(l[1].args)
            return None
        if t.op == "gu":
            if t.args[3] is not NONE: return s.shape_terms(t.args[3])
            lay = s.gulayout.get(t.args[0])
            if lay is None: return None
            ins, outs = [[tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", p)] for p in lay.split("->")]
            core = {}; loop = None
            for g, x in zip(ins, t.args[2]):
                sh = s.shape_terms(x)
                if sh is None or len(sh) < len(g):
                    if x.scalar and not g: continue
                    return None
                for n, d in zip(g, sh[len(sh) - len(g):]): core.setdefault(n, d)
                l = sh[:len(sh) - len(g)]
                if loop is None or len(l) > len(loop): loop = l
            o = outs[T.pyval(t.args[1])]
            if any(n not in core for n in o): return None
            return (loop or ()) + tuple(core[n] for n in o)
        return None

    def perm(s, l, n):
        """axis permutation of a transposing view of an array with n axes: result axis k is source axis perm[k]"""
        if l[0] == "transpose":
            if len(l[1]) == 1 and l[1][0] is not NONE and n != 1: return None
            p = [T.pyval(x) for x in l[1] if isinstance(x, T.Term) and x.op == "num"]
            if len(p) == n: return tuple(k % n for k in p)
            return tuple(range(n))[::-1] if len(l[1]) == 1 and l[1][0] is NONE else None
        if l[0] == "swapaxes":
            if any(x.op != "num" for x in l[1]): return None
            a, b = [T.pyval(x) % n for x in l[1]]
            o = list(range(n)); o[a], o[b] = o[b], o[a]
            return tuple(o)
        if l[0] == "moveaxis":
            a, b = l[1]
            if a.op != "num" or b.op != "num": return None
            a, b = T.pyval(a), T.pyval(b)
            if not (-n <= a < n and -n <= b < n): return None
            o = [k for k in range(n) if k != a % n]
            o.insert(b % n, a % n)
            return tuple(o)
        return None

    def path_shape(s, sh, path):
        path = list(path)
        if ELLIPSIS in path:
            i = path.index(ELLIPSIS)
            n = len(sh) - sum(s._axes(p) for p in path if p is not ELLIPSIS and p is not NONE)
            if n < 0: return None
            path[i:i + 1] = [FULL] * n
        out = []; k = 0
        for p in path:
            if p is NONE: out.append(num(1)); continue
            if k >= len(sh): return None
            L = sh[k]; k += 1
            if isint(p): continue
            if p.op == "slice":
                n = s.slice_len(p, L)
                if n is None: return None
                out.append(n)
            elif p.kind == "bool" and s.shape_terms(p) is not None and sum(1 for q in path if q.op not in ("slice",) and q is not NONE) == 1:
                k += s._axes(p) - 1
                if k > len(sh): return None
                out.append(_mk("size", (p,), "int", True))
            else: return None
        return tuple(out) + tuple(sh[k:])

    def _axes(s, p):
        """number of axes an index consumes"""
        if p.kind == "bool" and not p.scalar:
            sh = s.shape_terms(p)
            if sh is not None: return len(sh)
        return 1

    def slice_len(s, sl, L):
        a, b, c = sl.args
        if sl is FULL: return L
        F = s.facts() + [T.neg(L)]
        if c is NONE:
            a0 = num(0) if a is NONE else a
            b0 = L if b is NONE else b
            if a0.op == "num" and T.pyval(a0) < 0: a0 = T.add(L, a0)
            if b0.op == "num" and T.pyval(b0) < 0: b0 = T.add(L, b0)
            if lin.entails(F, T.neg(a0)) and lin.entails(F, T.neg(b0)) and lin.entails(F, T.sub(a0, b0)) and lin.entails(F, T.sub(b0, L)):
                return T.sub(b0, a0)
            # stop beyond the end
            if lin.entails(F, T.neg(a0)) and lin.entails(F, T.sub(a0, L)) and lin.entails(F, T.sub(L, b0)): return T.sub(L, a0)
        elif c.op == "num" and T.pyval(c) > 1:
            n = s.slice_len(mkslice(a, b), L)
            if n is not None and n.op != "slicelen": return s.floordiv(T.add(n, T.sub(c, num(1))), c)
        elif c.op == "num" and T.pyval(c) == -1 and a is NONE and b is NONE: return L
        return _mk("slicelen", (sl, L), "int", True)

    def dim(s, t, k):
        def f(x):
            sh = s.shape_terms(x)
            if sh is not None and -len(sh) <= k < len(sh): return sh[k]
            if x.op == "tup": return num(len(x.args))
            if x.op == "comp" and k == 0 and x.args[2] is T.TRUE: return x.args[0]
            x = s.shape_base(x)
            return _mk("dim", (x, num(k)), "int", True)
        return T.lift(f, t)

    def shape_base(s, x):
        """strip shape preserving operations"""
        while True:
            if x.op == "conj": x = x.args[0]
            elif x.op == "store": x = x.args[0]
            elif x.op in ("poly", "grp", "fun"):
                b = bases(x) - {None} if x.op != "fun" else {base_of(x)} - {None}
                if len(b) == 1 and "mixed" not in b and next(iter(b)) is not x: x = next(iter(b))
                else: return x
            else: return x

    def ndim_of(s, t):
        sh = s.shape_terms(t)
        return None if sh is None else len(sh)

def _pkey(p):
    return tuple(x.id for x in p)
