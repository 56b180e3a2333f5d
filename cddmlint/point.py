"""Element-wise view of array values.

`Pt.at(t, ix)` is the gated scalar value of element ix of an array term t; ix are symbolic
integer terms.  Slices, stores, axis permutations, reshapes, concatenation, broadcasting and
elementwise expressions become index arithmetic and conditions on the index, so that two
programs that move elements differently but to the same places get comparable values.

`Cmp` decides whether two gated scalars agree for every index and every size that satisfies
the stated facts: by enumerating the joint condition diagram and discarding the branches that
are linearly infeasible.  A difference is reported only with a concrete index / size at which
the two definitions select different values.
"""
import itertools, math
from fractions import Fraction
from . import terms as T
from . import lin
from .terms import _mk, NONE, ELLIPSIS, TRUE, FALSE, num, Undecided
from .arrays import FULL, ELEMWISE, isint, mkslice, leafbases

REDUCE = {"mean", "nanmean", "sum", "nansum", "median", "nanmedian", "var", "std", "min", "max", "amin", "amax", "nanmin", "nanmax", "prod", "any", "all", "argmin", "argmax"}
ROWFN = {"sort", "fft", "ifft", "rfft", "irfft", "cumsum", "argsort", "hfft", "diff"}
ROWFN2 = {"fft2", "ifft2", "rfft2", "irfft2"}
ROWFNN = {"fftn", "ifftn", "rfftn", "irfftn"}
SCALARMAP = {"round", "around", "rint", "nan_to_num", "isnan", "isfinite", "sign", "tan", "arctan", "arcsin", "arccos", "deg2rad", "rad2deg", "degrees", "radians", "fix", "trunc", "log10", "log2", "sinh", "cosh", "tanh", "heaviside", "sinc"}

def one(d): return d.op == "num" and d.args[0] == T.ONE

def condlits(t):
    """condition atoms of a gated value"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.op != "ite" or x in seen: continue
        seen.add(x)
        if x.args[0] not in out: out.append(x.args[0])
        st += [x.args[1], x.args[2]]
    return out

class Pt:
    def __init__(s, I, facts=()):
        s.I = I; s.F = list(facts)
        s.memo = {}; s.smemo = {}; s.depth = 0

    def und(s, why): raise Undecided("element of " + why)

    # ------------------------------------------------------------------ shapes
    def shape(s, t):
        """dimensions of an array term (tuple) or None when unknown"""
        r = s.smemo.get(t, 0)
        if r == 0:
            r = s.smemo[t] = s._shape(t)
            if r is not None: r = s.smemo[t] = tuple(r)
        return r

    def _shape(s, t):
        if t in s.I.shapes: return s.I.shapes[t]
        if t.op in ("num", "special", "bool", "iv", "bv") or t is NONE: return ()
        if t.scalar and t.op not in ("comp", "tup"): return ()
        o = t.op
        if o in ("poly", "powx", "grp", "conj", "lt0", "le0", "eq0", "np_isnan", "np_isfinite", "lor", "land", "lnot", "truth", "eq", "bitor", "bitand", "bitxor"):
            return s.bshape(s.operands(t))
        if o == "fun" : return s.bshape([x for x in t.args[1:] if isinstance(x, T.Term)])
        if o == "ite":
            return s.bshape([t.args[0], t.args[1], t.args[2]])
        if o == "where": return s.bshape(t.args)
        if o == "tup":
            if not t.args: return (num(0),)
            e = s.shape(t.args[0])
            return None if e is None else (num(len(t.args)),) + e
        if o == "comp":
            if t.args[2] is not TRUE: return None
            e = s.shape(t.args[1])
            return None if e is None else (t.args[0],) + e
        if o == "empty" and t.args: return t.args[0].args
        if o == "full" and len(t.args) > 1: return t.args[1].args
        if o == "arange": return (t.args[0],)
        if o == "arange3": return (s.cdiv(T.sub(t.args[1], t.args[0]), t.args[2]),)
        if o == "store":
            return s.basedshape(t.args[0])
        if o == "lens":
            sh = s.shape(t.args[0])
            return None if sh is None else s.lens_shape(sh, t.args[1])
        if o == "unlens":
            sh = s.shape(t.args[1])
            return None if sh is None else s.unlens_shape(sh, t.args[0])
        if o == "idx":
            b = t.args[0]
            if b.op == "np" and b.args[0].split(".")[-1] == "meshgrid" and t.args[1] and t.args[1][0].op == "num":
                r = s.mesh_shape(b)
                return r if len(t.args[1]) == 1 or r is None else s.path_shape(r, t.args[1][1:])
            sh = s.shape(b)
            return None if sh is None else s.path_shape(sh, t.args[1])
        if o == "np": return s.np_shape(t)
        if o == "gu": return s.gu_shape(t)
        if o == "rec": return s.shape(t.args[1][0])
        sh = s.I.shape_terms(t)
        return sh

    def basedshape(s, c):
        """shape of an array from its contents; None when the contents are a fill value only"""
        if c.op in ("num", "special", "bool") or c.op == "empty" and not c.args: return None
        if c.scalar and c.op not in ("store", "full", "empty"): return None
        return s.shape(c)

    def operands(s, t):
        if t.op == "poly": return [a for m, c in t.args[0] for a, e in m]
        return [x for x in t.args if isinstance(x, T.Term)]

    def bshape(s, ts):
        out = ()
        for x in ts:
            sh = s.shape(x)
            if sh is None: return None
            n = max(len(out), len(sh))
            a = (num(1),) * (n - len(out)) + tuple(out); b = (num(1),) * (n - len(sh)) + tuple(sh)
            out = tuple(q if one(p) else p for p, q in zip(a, b))
        return out

    def cdiv(s, a, b):
        if b.op == "num":
            k = T.pyval(b)
            if k == 1: return a
            if k > 0: return s.I.floordiv(T.add(a, num(k - 1)), num(k))
            if k == -1: return T.neg(a)
            return s.I.floordiv(T.add(T.neg(a), num(-k - 1)), num(-k))
        return T.fun("ceil", T.div(a, b), kind="int")

    def decide(s, c):
        """use the facts to settle a condition"""
        if c.op == "bool": return c
        for a in T.atoms_of_cond(c):
            if a.op == "lt0" and a.args[0].kind == "int":
                p = a.args[0]
                if lin.entails(s.F, T.add(p, num(1))): c = T.assume(c, a, True)
                elif lin.entails(s.F, T.neg(p)): c = T.assume(c, a, False)
            elif a.op == "eq0" and a.args[0].kind == "int":
                p = a.args[0]
                if lin.entails(s.F, p) and lin.entails(s.F, T.neg(p)): c = T.assume(c, a, True)
                elif lin.entails(s.F, T.add(p, num(1))) or lin.entails(s.F, T.sub(num(1), p)): c = T.assume(c, a, False)
        return c

    def sel(s, c, a, b):
        return T.ite(s.decide(c), a, b)

    def bounds(s, sl, L):
        """(first index, step, length) of a slice of an axis of length L"""
        a, b, c = sl.args
        if c is not NONE and c.op != "num": s.und("a slice with unknown step")
        k = 1 if c is NONE else T.pyval(c)
        z = num(0)
        def wrap(x, lo, hi):
            # python: negative values count from the end, then clamped into [lo, hi]
            def f(x):
                if x.op == "num" and T.pyval(x) >= 0: y = x
                elif x.op == "num": y = T.add(L, x)
                else: y = s.sel(T.lt(x, z), T.add(L, x), x)
                y = s.sel(T.lt(y, lo), lo, y)
                return s.sel(T.lt(hi, y), hi, y)
            return T.lift(f, x)
        if k > 0:
            st = z if a is NONE else wrap(a, z, L)
            en = L if b is NONE else wrap(b, z, L)
            n = T.sub(en, st)
        else:
            st = T.sub(L, num(1)) if a is NONE else wrap(a, num(-1), T.sub(L, num(1)))
            en = num(-1) if b is NONE else wrap(b, num(-1), T.sub(L, num(1)))
            n = T.sub(st, en)
        n = s.sel(T.lt(n, z), z, n)
        if abs(k) != 1: n = s.I.floordiv(T.add(n, num(abs(k) - 1)), num(abs(k)))
        return st, k, n

    def expand(s, path, nd):
        path = list(path)
        used = sum(s.naxes(p) for p in path if p is not ELLIPSIS)
        if ELLIPSIS in path:
            i = path.index(ELLIPSIS)
            path[i:i + 1] = [FULL] * (nd - used)
        else: path += [FULL] * (nd - used)
        return path

    def naxes(s, p):
        if p is NONE: return 0
        if p.op == "slice" or p.scalar: return 1
        if p.kind == "bool":
            sh = s.shape(p)
            if sh is None: s.und("an array indexed by a mask of unknown shape")
            return len(sh)
        return 1

    def path_shape(s, sh, path):
        """shape of x[path] for x of shape sh"""
        p = s.expand(path, len(sh))
        out = []; k = 0; adv = None
        for x in p:
            if x is NONE: out.append(num(1)); continue
            if x.op == "slice":
                out.append(s.bounds(x, sh[k])[2]); k += 1
            elif x.scalar: k += 1
            elif x.kind == "bool":
                out.append(_mk("size", (x,), "int", True)); k += s.naxes(x)
            else:
                xs = s.shape(x)
                if xs is None: return None
                if adv is None: adv = (len(out), xs); out += list(xs)
                elif len(xs) > len(adv[1]): return None
                k += 1
        return tuple(out)

    def lens_shape(s, sh, l):
        if l[0] in ("real", "imag"): return sh
        if l[0] in ("transpose", "moveaxis", "swapaxes"):
            p = s.I.perm(l, len(sh))
            return None if p is None else tuple(sh[k] for k in p)
        if l[0] == "reshape": return s.newshape(sh, l[1])
        return None

    def unlens_shape(s, sh, l):
        if l[0] in ("transpose", "moveaxis", "swapaxes"):
            p = s.I.perm(l, len(sh))
            return None if p is None else tuple(sh[p.index(k)] for k in range(len(sh)))
        return None

    def newshape(s, sh, r):
        if isinstance(r, tuple): r = T.tup(*r) if not (len(r) == 1 and r[0].op == "tup") else r[0]
        if r.op == "seqadd" or r.op != "tup":
            if r.kind == "int" and r.scalar: r = T.tup(r)
            else: return None
        ds = list(r.args)
        tot = num(1)
        for d in sh: tot = T.mul(tot, d)
        for k, d in enumerate(ds):
            if d.op == "num" and T.pyval(d) == -1:
                o = num(1)
                for j, e in enumerate(ds):
                    if j != k: o = T.mul(o, e)
                q = T.div(tot, o)
                if any(e < 0 for m, c in T.to_poly(q).items() for a, e in m): return None
                ds[k] = q
        return tuple(ds)

    def np_args(s, t):
        n, names, vals, rest = t.args
        return n.split(".")[-1], dict(zip(names, vals)), list(rest)

    def axis(s, kw, nd, default, key="axis"):
        a = kw.get(key, num(default) if default is not None else NONE)
        if a is NONE: return None
        if a.op == "num": return (T.pyval(a) % nd,)
        if a.op == "tup" and all(x.op == "num" for x in a.args): return tuple(T.pyval(x) % nd for x in a.args)
        s.und("a reduction over an unknown axis")

    def first(s, kw, rest, *names):
        for k in names:
            if k in kw: return kw[k]
        if rest: return rest[0]
        s.und("a call without arguments")

    def np_shape(s, t):
        n, kw, rest = s.np_args(t)
        if n == "meshgrid":
            r = s.mesh(t); sh = s.mesh_shape(t)
            return None if sh is None else (num(len(r[0])),) + sh
        if n in ("concatenate", "hstack", "vstack", "stack"):
            a = s.first(kw, rest, "arrays", "tup")
            if a.op != "tup": return None
            shs = [s.shape(x) for x in a.args]
            if any(x is None for x in shs) or not shs: return None
            if n == "stack":
                k = s.axis(kw, len(shs[0]) + 1, 0)[0]
                return shs[0][:k] + (num(len(shs)),) + shs[0][k:]
            k = s.cat_axis(n, kw, len(shs[0]))
            if k is None: return None
            tot = num(0)
            for x in shs: tot = T.add(tot, x[k])
            return shs[0][:k] + (tot,) + shs[0][k + 1:]
        if n in REDUCE:
            x = s.first(kw, rest, "a", "x")
            sh = s.shape(x)
            if sh is None: return None
            ax = s.axis(kw, len(sh), None) if sh else None
            if ax is None: return ()
            if kw.get("keepdims", FALSE) is TRUE: return tuple(num(1) if k in ax else d for k, d in enumerate(sh))
            return tuple(d for k, d in enumerate(sh) if k not in ax)
        if n in ("roll", "flip", "fliplr", "flipud", "fftshift", "ifftshift", "sort", "cumsum", "argsort") or n in SCALARMAP:
            return s.shape(s.first(kw, rest, "m", "a", "x"))
        if n in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn") and not any(k in kw for k in ("n", "s")):
            return s.shape(s.first(kw, rest, "a", "x"))
        if n == "fftfreq": return (s.first(kw, rest, "n"),)
        if n == "rfftfreq": return (T.add(s.I.floordiv(s.first(kw, rest, "n"), num(2)), num(1)),)
        if n == "linspace":
            a = s.lin_args(kw, rest)
            return (a[2],) if a else None
        if n == "convolve":
            sa = s.shape(kw["a"] if "a" in kw else rest[0]); sv = s.shape(kw["v"] if "v" in kw else rest[-1])
            if not sa or not sv: return None
            m = kw.get("mode", T.const("full"))
            if m is T.const("same"): return (s.I.minmax("max", sa[0], sv[0]),)
            if m is T.const("full"): return (T.sub(T.add(sa[0], sv[0]), num(1)),)
            return None
        if n == "outer":
            a, b = kw.get("a", rest[0] if rest else None), kw.get("b", rest[-1] if rest else None)
            sa, sb = s.shape(a), s.shape(b)
            return None if sa is None or sb is None else tuple(sa) + tuple(sb)
        return s.I.shape_terms(t)

    def lin_args(s, kw, rest):
        v = dict(kw)
        for k, x in zip(("start", "stop", "num"), rest): v.setdefault(k, x)
        if "endpoint" in v or not all(k in v for k in ("start", "stop")): return None
        return v["start"], v["stop"], v.get("num", num(50))

    def cat_axis(s, n, kw, nd):
        if n == "concatenate":
            a = kw.get("axis", num(0))
            return T.pyval(a) % nd if a.op == "num" else None
        return (0 if nd == 1 else 1) if n == "hstack" else (0 if nd > 1 else None)

    def mesh(s, b):
        n, kw, rest = s.np_args(b)
        if any(k not in ("indexing",) and not k.startswith("x") for k in kw): return None
        xs = rest or [kw[k] for k in sorted(kw) if k.startswith("x")]
        ind = kw.get("indexing")
        xy = ind is None or (ind.op == "const" and ind.args[1] == "xy")
        if ind is not None and ind.op != "const": return None
        pos = list(range(len(xs)))
        if xy and len(xs) > 1: pos[0], pos[1] = 1, 0
        return xs, pos

    def mesh_shape(s, b):
        r = s.mesh(b)
        if r is None: return None
        xs, pos = r
        out = [None] * len(xs)
        for x, p in zip(xs, pos):
            sh = s.shape(x)
            if sh is None or len(sh) != 1: return None
            out[p] = sh[0]
        return tuple(out)

    def gu_core(s, t):
        import re
        lay = s.I.gulayout.get(t.args[0])
        if lay is None: s.und("a kernel call of unknown layout")
        ins, outs = [[tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", p)] for p in lay.split("->")]
        return ins, outs[T.pyval(t.args[1])]

    def gu_shape(s, t):
        ins, o = s.gu_core(t)
        core = {}; loop = ()
        for g, x in zip(ins, t.args[2]):
            sh = s.shape(x)
            if sh is None: return None
            for n, d in zip(g, sh[len(sh) - len(g):]): core.setdefault(n, d)
            l = sh[:len(sh) - len(g)]
            if len(l) > len(loop): loop = l
        if any(n not in core for n in o): return None
        return tuple(loop) + tuple(core[n] for n in o)

    # ------------------------------------------------------------------ elements
    def bat(s, t, ix):
        """element of an operand that is broadcast against index ix"""
        if t.op in ("num", "special", "bool") : return t
        sh = s.shape(t)
        if sh == (): return s.scal(t)
        if sh is None: return s.at(t, ix)
        ix = tuple(ix)[len(ix) - len(sh):] if len(ix) >= len(sh) else s.und("an operand with more axes than the result")
        return s.at(t, tuple(num(0) if one(d) else i for d, i in zip(sh, ix)))

    def scal(s, t):
        """a scalar value: its sub-terms read elements of arrays"""
        r = s.memo.get((t, None))
        if r is None: r = s.memo[(t, None)] = s._scal(t)
        return r

    def _scal(s, t):
        o = t.op
        if o in ("num", "const", "bool", "special", "sym", "iv", "bv"): return t
        if o == "poly":
            r = num(0)
            for m, c in t.args[0]:
                x = num(c)
                for a, e in m: x = T.mul(x, T.power(s.scal(a), num(T.G(e))))
                r = T.add(r, x)
            return r
        if o == "conj": return T.conj(s.scal(t.args[0]))
        if o == "grp": return _mk("grp", (s.scal(t.args[0]),), t.kind, True)
        if o == "fun":
            a = [s.scal(x) if isinstance(x, T.Term) else x for x in t.args[1:]]
            r = s.I.rebuild(t, (t.args[0],) + tuple(a))
            if r is not None: return r
            return T.absv(a[0]) if t.args[0] == "abs" else T.fun(t.args[0], *a, kind=t.kind if t.kind == "int" else None)
        if o == "ite": return T.ite(s.cond(t.args[0], ()), s.scal(t.args[1]), s.scal(t.args[2]))
        if o in ("lt0", "le0", "eq0", "np_isnan", "np_isfinite", "eq", "truth", "lor", "land", "lnot"): return s.cond(t, ())
        if o == "idx" : return s.at(t, ())
        if o == "np": return s.at(t, ())
        if o == "gu" and s.shape(t) == (): return s.at(t, ())
        return t

    def cond(s, c, ix):
        f = lambda x: s.bat(x, ix)
        if c.op == "bool": return c
        if c.op == "ite": return T.ite(s.cond(c.args[0], ix), s.cond(c.args[1], ix), s.cond(c.args[2], ix))
        if c.op == "lt0": return T.lt(f(c.args[0]), num(0))
        if c.op == "le0": return T.le(f(c.args[0]), num(0))
        if c.op == "eq0": return T.eq(f(c.args[0]), num(0))
        if c.op == "eq": return T.eq(f(c.args[0]), f(c.args[1]))
        if c.op == "truth": return T.boolean(f(c.args[0]))
        if c.op == "lnot": return T.not_(s.asbool(s.bat(c.args[0], ix)))
        if c.op == "lor": return s.fold(T.or_, c, ix)
        if c.op == "land": return s.fold(T.and_, c, ix)
        if c.op in ("np_isnan", "np_isfinite"): return T.lift(lambda x: _mk(c.op, (x,), "bool", True) if x.op != "num" else (FALSE if c.op == "np_isnan" else TRUE), f(c.args[0]))
        if c.scalar: return c
        return s.asbool(f(c))

    def fold(s, g, c, ix):
        r = None
        for x in c.args:
            y = s.asbool(s.bat(x, ix)); r = y if r is None else g(r, y)
        return r

    def asbool(s, t):
        return t if t.kind == "bool" else T.boolean(t)

    def at(s, t, ix):
        ix = tuple(ix)
        key = (t, ix)
        r = s.memo.get(key)
        if r is None:
            s.depth += 1
            if s.depth > 200: s.depth = 0; s.und("a too deeply nested value")
            try: r = s._at(t, ix)
            finally: s.depth -= 1
            s.memo[key] = r
        return r

    def el(s, b, ix):
        if not ix: return b
        if b.op in ("slot", "rec", "store", "comp", "while", "ref"): s.und("an element of a computed array (%s)" % b.op)
        if any(i.op == "ite" for i in ix): return T.lift(lambda *i: s.el(b, i), *ix)
        sh = s.shape(b)
        if sh is not None and len(sh) != len(ix): s.und("an array with another number of axes")
        out = []
        for k, i in enumerate(ix):
            if i.op == "num" and T.pyval(i) < 0 and sh is not None: i = T.add(sh[k], i)
            out.append(i)
        k = b.kind if b.kind in ("int", "real", "cplx", "bool") else "any"
        return _mk("el", (b, tuple(out)), k, True)

    def _at(s, t, ix):
        o = t.op
        if o in ("num", "special", "bool") or t is NONE: return t
        if o == "empty": return _mk("uninit", (), "any", True)
        if t.scalar and o not in ("comp", "tup", "idx", "np", "gu", "arange"): return s.scal(t)
        if o == "full": return s.at(t.args[0], ())
        f = lambda x: s.bat(x, ix)
        if o == "poly":
            r = num(0)
            for m, c in t.args[0]:
                x = num(c)
                for a, e in m: x = T.mul(x, T.power(f(a), num(T.G(e))))
                r = T.add(r, x)
            return r
        if o == "grp": return f(t.args[0])
        if o == "conj": return T.conj(f(t.args[0]))
        if o == "fun":
            n = t.args[0]
            if n == "abs": return T.absv(f(t.args[1]))
            a = tuple(f(x) if isinstance(x, T.Term) else x for x in t.args[1:])
            r = s.I.rebuild(t, (n,) + a)
            return r if r is not None else T.fun(n, *a, kind=t.kind if t.kind == "int" else None)
        if o in ("bitor", "bitand", "bitxor"): return T.lift(lambda x, y: s.I._binop(o, x, y), f(t.args[0]), f(t.args[1]))
        if o == "powx": return T.power(f(t.args[0]), f(t.args[1]))
        if o in ("lt0", "le0", "eq0", "np_isnan", "np_isfinite", "lor", "land", "lnot", "truth", "eq"): return s.cond(t, ix)
        if o == "ite": return T.ite(s.cond(t.args[0], ix), f(t.args[1]), f(t.args[2]))
        if o == "where": return T.ite(s.asbool(f(t.args[0])), f(t.args[1]), f(t.args[2]))
        if o == "tup":
            i = ix[0]
            def pick(i):
                if i.op == "num":
                    k = T.pyval(i)
                    if not -len(t.args) <= k < len(t.args): return _mk("uninit", (), "any", True)
                    return s.at(t.args[k], ix[1:])
                r = s.at(t.args[-1], ix[1:])
                for k in range(len(t.args) - 2, -1, -1): r = s.sel(T.eq(i, num(k)), s.at(t.args[k], ix[1:]), r)
                return r
            return T.lift(pick, i)
        if o == "comp":
            if t.args[2] is not TRUE: s.und("a filtered sequence")
            e = T.subst(t.args[1], {t.args[3]: ix[0]}, s.I.rebuild)
            return s.at(e, ix[1:])
        if o == "arange": return ix[0]
        if o == "arange3": return T.add(t.args[0], T.mul(t.args[2], ix[0]))
        if o == "idx": return s.at_idx(t, ix)
        if o == "store": return s.at_store(t, ix)
        if o == "lens": return s.at_lens(t.args[0], t.args[1], ix)
        if o == "unlens": return s.at_unlens(t, ix)
        if o == "np": return s.at_np(t, ix)
        if o == "gu": return s.at_gu(t, ix)
        if o == "rec": return s.at_rec(t, ix)
        if s.shape(t) == (): return t
        return s.el(t, ix)

    def at_rec(s, t, ix):
        """element of an array that a loop fills: each element is written by at most one iteration, or summed"""
        bodies, inits, n = t.args
        if len(bodies) != 1: s.und("arrays that a loop computes together")
        body, init = bodies[0], inits[0]
        hs = {x.args[0] for x in T.walk(body) if x.op == "slot"}
        if not hs: s.und("a loop that does not use its array")
        h = max(hs)
        P = _mk("prev", (t,), init.kind, False)
        sh = s.shape(init)
        if sh is not None: s.I.shapes[P] = sh
        k = _mk("sym", ("step#%d" % t.id, True), "int", True)
        m = {x: P for x in T.walk(body) if x.op == "slot" and x.args[0] == h}
        m[T.bv(h)] = k
        sub = Pt(s.I, list(s.F) + [T.neg(k), T.add(T.sub(k, n), num(1))])
        sub.depth = s.depth
        e = sub.at(T.subst(body, m, s.I.rebuild), ix)
        e0 = sub.at(P, tuple(ix))
        base = s.at(init, ix)
        if e is e0: return base
        has = lambda x: any(y is P for y in T.walk(x))
        lits = [v for v in condlits(e) if any(y is k for y in T.walk(v))]
        if not lits:
            d = T.sub(e, e0) if e.op != "ite" else e
            if has(d): s.und("a loop that changes an element repeatedly")
            return T.add(base, s.I.sum(d, k, num(0), n))
        for v in lits:
            if v.op != "eq0": continue
            c, r = s.I.coef(v.args[0], k)
            if c not in (1, -1) or any(y is k for y in T.walk(r)): continue
            if T.assume(e, v, False) is not e0: continue
            at = T.neg(r) if c == 1 else r
            val = T.subst(T.subst(T.assume(e, v, True), {k: at}, s.I.rebuild), {e0: base}, s.I.rebuild)
            if has(val): s.und("a loop that uses other elements of its array")
            inr = T.and_(s.decide(T.not_(T.lt(at, num(0)))), s.decide(T.lt(at, n)))
            return T.ite(inr, val, base)
        if all(l is e0 or not has(l) for l in T.leaves(e)) and not any(has(v) for v in condlits(e)):
            # the last iteration that writes decides
            d = T.subst(e, {e0: KEEP}, s.I.rebuild)
            if not any(y is e0 for y in T.walk(d)):
                return _mk("lastof", (n, T.subst(d, {k: T.bv(s.I.height(d))}, s.I.rebuild), base), base.kind, True)
        s.und("a loop whose writes are not resolved")

    def wrapint(s, i, L):
        def f(i):
            if i.op == "num": return i if T.pyval(i) >= 0 else T.add(L, i)
            return s.sel(T.lt(i, num(0)), T.add(L, i), i)
        return T.lift(f, i)

    def at_idx(s, t, ix):
        b, path = t.args
        if b.op == "np" and b.args[0].split(".")[-1] == "meshgrid" and path[0].op == "num":
            r = s.mesh(b)
            if r is None: s.und("meshgrid")
            xs, pos = r
            k = T.pyval(path[0])
            if len(path) == 1: return s.at(xs[k], (ix[pos[k]],))
            jx = s.source(s.mesh_shape(b), path[1:], ix)
            return s.at(xs[k], (jx[pos[k]],))
        if b.op == "np" and b.args[0].split(".")[-1] in ("where", "nonzero") : return s.el(t, ix)
        sh = s.shape(b)
        if sh is None:
            # unknown number of axes: plain integer and full-slice paths only
            if ELLIPSIS in path or any(not (isint(p) or p is FULL) for p in path):
                if len(path) >= 1 and path[0] is ELLIPSIS and all(isint(p) for p in path[1:]): return s.at(b, tuple(ix) + tuple(path[1:]))
                s.und("an index into an array with unknown shape")
            q = []; k = list(ix)
            for p in path: q.append(k.pop(0) if p is FULL else p)
            return s.at(b, tuple(q + k))
        return s.at(b, s.source(sh, path, ix))

    def source(s, sh, path, ix):
        """index into x of element ix of x[path]"""
        out = []; k = 0; ix = list(ix); adv = None
        for p in s.expand(path, len(sh)):
            if p is NONE: ix.pop(0); continue
            if p.op == "slice":
                st, step, n = s.bounds(p, sh[k])
                out.append(T.add(st, T.mul(num(step), ix.pop(0)))); k += 1
            elif p.scalar:
                out.append(s.wrapint(s.scal(p), sh[k])); k += 1
            elif p.kind == "bool":
                m = ix.pop(0); n = s.naxes(p)
                out += [_mk("nth", (p, m, num(j)), "int", True) for j in range(n)]; k += n
            else:
                ps = s.shape(p)
                if ps is None: s.und("an index array of unknown shape")
                if adv is None:
                    adv = [ix.pop(0) for _ in ps]
                out.append(s.wrapint(s.bat(p, tuple(adv)), sh[k])); k += 1
        return tuple(out)

    def at_store(s, t, ix):
        c, path, v = t.args
        sh = s.shape(t)
        if sh is None: sh = s.basedshape(c)
        if sh is None:
            if all(isint(p) or p is FULL for p in path) and len(path) <= len(ix): sh = tuple(_mk("dim", (t, num(k)), "int", True) for k in range(len(ix)))
            elif ELLIPSIS in path: sh = tuple(_mk("dim", (t, num(k)), "int", True) for k in range(len(ix)))
            else: s.und("a store into an array of unknown shape")
        if len(ix) != len(sh): s.und("a stored array with another number of axes")
        cond = TRUE; vix = []; vsh = []; k = 0; adv = False
        for p in s.expand(path, len(sh)):
            if p is NONE: vix.append(num(0)); vsh.append(num(1)); continue
            if p is FULL: vix.append(ix[k]); vsh.append(sh[k]); k += 1
            elif p.op == "slice":
                st, step, n = s.bounds(p, sh[k])
                i = T.sub(ix[k], st)
                if abs(step) != 1:
                    if step < 0: i = T.neg(i)
                    cond = T.and_(cond, s.decide(T.eq(s.I.mod(i, num(abs(step))), num(0))))
                    j = s.I.floordiv(i, num(abs(step)))
                else: j = i if step == 1 else T.neg(i)
                cond = T.and_(cond, T.and_(s.decide(T.not_(T.lt(j, num(0)))), s.decide(T.lt(j, n))))
                vix.append(j); vsh.append(n); k += 1
            elif p.scalar:
                cond = T.and_(cond, s.decide(T.eq(ix[k], s.wrapint(s.scal(p), sh[k])))); k += 1
            elif p.kind == "bool":
                n = s.naxes(p); m = s.asbool(s.at(p, ix[k:k + n])); k += n
                cond = T.and_(cond, m)
                vix.append(None if True else 0); vsh.append(_mk("size", (p,), "int", True)); adv = p, len(vix) - 1, ix[k - n:k]
            else: s.und("a store through an index array")
        if cond is FALSE: return s.at(c, ix)
        if adv:
            p, pos, src = adv
            w = s.masked_value(v, p)
            if w is None:
                vix[pos] = _mk("rank", (p,) + tuple(src), "int", True)
                val = s.value_at(v, vix)
            else:
                if w.op in ("num", "special", "bool") or s.shape(w) == (): val = s.scal(w)
                else: val = s.at(w, ix)
        else: val = s.value_at(v, vix)
        return T.ite(cond, val, s.at(c, ix))

    def masked_value(s, v, p):
        """w with v == w[p] elementwise, or v when scalar; None otherwise"""
        if v.op in ("num", "special", "bool") or v.scalar: return v
        m = {}
        for x in leafbases(v):
            if x.scalar or x.op in ("num", "special"): continue
            if x.op == "idx" and len(x.args[1]) >= 1 and x.args[1][-1] is p and all(q is ELLIPSIS or q is FULL for q in x.args[1][:-1]): m[x] = x.args[0]
            else: return None
        return T.subst(v, m, s.I.rebuild)

    def value_at(s, v, vix):
        if v.op in ("num", "special", "bool"): return v
        sh = s.shape(v)
        if sh == (): return s.scal(v)
        if sh is None: return s.at(v, tuple(vix))
        vix = list(vix)
        if len(sh) > len(vix):
            d = len(sh) - len(vix)
            if not all(one(x) for x in sh[:d]): s.und("a stored value with more axes than its place")
            vix = [num(0)] * d + vix
        vix = vix[len(vix) - len(sh):]
        return s.at(v, tuple(num(0) if one(d) else i for d, i in zip(sh, vix)))

    def at_lens(s, x, l, ix):
        if l[0] == "real": return T.real(s.at(x, ix))
        if l[0] == "imag": return T.imag(s.at(x, ix))
        if l[0] in ("transpose", "moveaxis", "swapaxes"):
            p = s.I.perm(l, len(ix))
            if p is None: s.und("an axis permutation")
            q = [None] * len(ix)
            for k, i in zip(p, ix): q[k] = i
            return s.at(x, tuple(q))
        if l[0] == "reshape":
            sh = s.shape(x)
            if sh is None:
                s.und("a reshaped array of unknown shape")
            new = s.newshape(sh, l[1])
            if new is None: s.und("a reshape to unknown shape")
            return s.at(x, s.reindex(new, sh, ix))
        s.und("a view (%s)" % l[0])

    def reindex(s, new, old, ix):
        """index in shape `old` of the element with index ix in shape `new` (C order)"""
        if new == old: return ix
        out = []
        i = j = 0
        while i < len(new) or j < len(old):
            a, b = i, j
            p = q = num(1)
            if i < len(new): p = new[i]; i += 1
            if j < len(old): q = old[j]; j += 1
            while p is not q:
                if j < len(old) and s.divides(p, q, old[j]): q = T.mul(q, old[j]); j += 1
                elif i < len(new) and s.divides(q, p, new[i]): p = T.mul(p, new[i]); i += 1
                elif j < len(old): q = T.mul(q, old[j]); j += 1
                elif i < len(new): p = T.mul(p, new[i]); i += 1
                else: s.und("a reshape that does not keep the number of elements")
            # flat index of the group
            flat = num(0)
            for k in range(a, i): flat = T.add(T.mul(flat, new[k]), ix[k])
            ds = old[b:j]
            if len(ds) == 1: out.append(flat); continue
            r = []
            for d in reversed(ds[1:]):
                q_, m_ = s.divmod(flat, d)
                r.append(m_); flat = q_
            if ds: r.append(flat); out += list(reversed(r))
        return tuple(out)

    def divides(s, p, q, d):
        # prefer extending the smaller side: p still has a factor that q lacks
        fp = {a for m, c in T.to_poly(p).items() for a, e in m}
        fd = {a for m, c in T.to_poly(d).items() for a, e in m}
        return bool(fd & fp) or (d.op == "num" and p.op == "num")

    def divmod(s, a, d):
        """quotient and remainder, using 0 <= a_k < d facts for a sum q*d + r"""
        if one(d): return a, num(0)
        def f(a):
            # monomials divisible by d
            dm = T.to_poly(d)
            q, r = {}, {}
            if len(dm) == 1:
                (mono, c), = dm.items()
                for m, k in T.to_poly(a).items():
                    mm = dict(m); ok = True
                    for x, e in mono:
                        if mm.get(x, 0) < e: ok = False; break
                        mm[x] = mm[x] - e
                    if ok and (k.re / c.re).denominator == 1 and k.im == 0: q[T._mono(mm)] = T.G(k.re / c.re)
                    else: r[m] = k
                Q, R = T.from_poly(q), T.from_poly(r)
            else: Q, R = num(0), a
            if lin.entails(s.F, T.neg(R)) and lin.entails(s.F, T.add(T.sub(R, d), num(1))): return T.tup(Q, R)
            x = s.I.floordiv(R, d); 
            return T.tup(T.add(Q, x), T.sub(R, T.mul(d, x)))
        r = T.lift(f, a)
        return s.I.idx(r, (num(0),)), s.I.idx(r, (num(1),))

    def at_unlens(s, t, ix):
        l, v = t.args
        if l[0] in ("transpose", "moveaxis", "swapaxes"):
            p = s.I.perm(l, len(ix))
            if p is None: s.und("an axis permutation")
            return s.at(v, tuple(ix[k] for k in p))
        s.und("a store through a view (%s)" % l[0])

    # -------------------------------------------------------------- array functions
    def lam(s, t, sh, free):
        """canonical function term  (b0, b1, ..) -> element, where `free` gives index or None (bound)"""
        hs = [s.I.height(t)] + [s.I.height(i) for i in free if i is not None]
        h = max(hs + [0]); ix = []; dims = []
        for k, i in enumerate(free):
            if i is None: ix.append(T.bv(h + len(dims))); dims.append(sh[k])
            else: ix.append(i)
        F0 = s.F
        s.F = F0 + [T.neg(b) for b, i in zip(ix, free) if i is None] + [T.add(T.sub(b, d), num(1)) for b, i, d in zip(ix, free, sh) if i is None]
        memo = s.memo; s.memo = {}
        try: body = s.at(t, tuple(ix))
        finally: s.F = F0; s.memo = memo
        # canonical numbering from zero upwards of the innermost free level
        return dims, body, h

    def at_np(s, t, ix):
        n, kw, rest = s.np_args(t)
        if n in ("concatenate", "hstack", "vstack", "stack"):
            a = s.first(kw, rest, "arrays", "tup")
            if a.op != "tup": s.und("a concatenation of unknown parts")
            if n == "stack":
                k = s.axis(kw, len(ix), 0)[0]
                return s.at(T.tup(*a.args), (ix[k],) + tuple(ix[:k]) + tuple(ix[k + 1:]))
            k = s.cat_axis(n, kw, len(ix))
            if k is None: s.und("a concatenation along an unknown axis")
            parts = []
            off = num(0)
            for x in a.args:
                sh = s.shape(x)
                if sh is None: s.und("a concatenation of parts of unknown shape")
                parts.append((x, off, sh[k])); off = T.add(off, sh[k])
            def go(j):
                x, o, d = parts[j]
                i = T.sub(ix[k], o)
                if j == len(parts) - 1: return s.at(x, ix[:k] + (i,) + ix[k + 1:])
                c = s.decide(T.lt(i, d))
                if c is TRUE: return s.at(x, ix[:k] + (i,) + ix[k + 1:])
                if c is FALSE: return go(j + 1)
                return T.ite(c, s.at(x, ix[:k] + (i,) + ix[k + 1:]), go(j + 1))
            return go(0)
        if n == "meshgrid":
            r = s.mesh(t)
            if r is None or not ix or ix[0].op != "num": s.und("meshgrid")
            xs, pos = r; j = T.pyval(ix[0])
            return s.at(xs[j], (ix[1 + pos[j]],))
        if n == "roll":
            x = s.first(kw, rest, "a"); sh = s.shape(x)
            shift = kw.get("shift", rest[1] if len(rest) > 1 else None); ax = kw.get("axis", rest[2] if len(rest) > 2 else NONE)
            if sh is None or ax.op not in ("num", "tup"): s.und("roll")
            if ax.op == "tup": axs = [T.pyval(q) for q in ax.args]; shs = list(shift.args) if shift.op == "tup" else [shift] * len(axs)
            else: axs = [T.pyval(ax)]; shs = [shift]
            ix = list(ix)
            for a_, sft in zip(axs, shs):
                k = a_ % len(sh); L = sh[k]
                ix[k] = s.modn(T.sub(ix[k], sft), L)
            return s.at(x, tuple(ix))
        if n in ("fftshift", "ifftshift"):
            x = s.first(kw, rest, "x"); sh = s.shape(x)
            if sh is None: s.und("fftshift")
            ax = s.axis(kw, len(sh), None, "axes")
            ix = list(ix)
            for k in (range(len(sh)) if ax is None else ax):
                h = s.I.floordiv(sh[k], num(2))
                ix[k] = s.modn(T.sub(ix[k], h if n == "fftshift" else T.neg(h)), sh[k])
            return s.at(x, tuple(ix))
        if n in ("flip", "fliplr", "flipud"):
            x = s.first(kw, rest, "m"); sh = s.shape(x)
            if sh is None: s.und("flip")
            ax = (1,) if n == "fliplr" else (0,) if n == "flipud" else s.axis(kw, len(sh), None)
            if len(rest) > 1 and "axis" not in kw: ax = s.axis({"axis": rest[1]}, len(sh), None)
            ix = list(ix)
            for k in (range(len(sh)) if ax is None else ax): ix[k] = T.sub(T.sub(sh[k], num(1)), ix[k])
            return s.at(x, tuple(ix))
        if n in ("fftfreq", "rfftfreq"):
            N = s.first(kw, rest, "n"); d = kw.get("d", rest[1] if len(rest) > 1 else num(1))
            i = ix[0]
            if n == "fftfreq": i = s.sel(T.lt(i, s.I.floordiv(T.add(N, num(1)), num(2))), i, T.sub(i, N))
            return T.div(i, T.mul(N, d))
        if n == "linspace":
            a = s.lin_args(kw, rest)
            if a is None: s.und("linspace")
            return T.add(a[0], T.mul(T.div(T.sub(a[1], a[0]), T.sub(a[2], num(1))), ix[0]))
        if n == "outer":
            a, b = kw.get("a", rest[0] if rest else None), kw.get("b", rest[-1] if rest else None)
            return T.mul(s.at(a, (ix[0],)), s.at(b, (ix[1],)))
        if n in SCALARMAP:
            x = s.first(kw, rest, "x", "a")
            e = s.bat(x, ix)
            if n in ("isnan", "isfinite"): return T.lift(lambda y: _mk("np_" + n, (y,), "bool", True), e)
            ex = tuple((k, v) for k, v in sorted(kw.items()) if v is not x)
            return T.lift(lambda y: _mk("np", (t.args[0], ("x",) + tuple(k for k, v in ex), (y,) + tuple(v for k, v in ex), ()), t.kind, True), e)
        if n in REDUCE:
            x = s.first(kw, rest, "a", "x"); sh = s.shape(x)
            if sh is None:
                if t.scalar: return t
                s.und("a reduction of an array of unknown shape")
            if sh == (): s.und("a reduction of a scalar")
            ax = s.axis(kw, len(sh), None)
            if ax is None: ax = tuple(range(len(sh)))
            keep = kw.get("keepdims", FALSE) is TRUE
            it = list(ix); free = []
            for k in range(len(sh)):
                if k in ax:
                    free.append(None)
                    if keep: it.pop(0)
                else: free.append(it.pop(0))
            few = 1
            for k in ax: few = few * T.pyval(sh[k]) if sh[k].op == "num" and few else 0
            if 0 < few <= 16 and n in ("sum", "mean", "var") and set(kw) <= {"a", "axis", "keepdims"}:
                tot = sq = num(0)
                for c in itertools.product(*[range(T.pyval(sh[k])) for k in ax]):
                    c = iter(c)
                    e = s.at(x, tuple(num(next(c)) if k in ax else free[k] for k in range(len(sh))))
                    tot = T.add(tot, e)
                    if n == "var": sq = T.add(sq, T.mul(e, T.conj(e)))
                inv = num(Fraction(1, few))
                if n == "var": return T.sub(T.mul(sq, inv), T.mul(T.mul(tot, inv), T.conj(T.mul(tot, inv))))
                return T.mul(tot, num(Fraction(1, few))) if n == "mean" else tot
            dims, body, h = s.lam(x, sh, free)
            ex = tuple((k, v) for k, v in sorted(kw.items()) if v is not x and k not in ("axis", "keepdims"))
            return _mk("red", (n, tuple(dims), body, num(h), ex), t.kind, True)
        if n in ROWFN or n in ROWFN2 or n in ROWFNN:
            x = s.first(kw, rest, "a", "x"); sh = s.shape(x)
            if sh is None: return s.el(t, ix)
            if n in ROWFN: ax = s.axis(kw, len(sh), -1)
            elif n in ROWFN2: ax = s.axis(kw, len(sh), None, "axes") or (len(sh) - 2, len(sh) - 1)
            else: ax = s.axis(kw, len(sh), None, "axes") or tuple(range(len(sh)))
            free = [None if k in ax else i for k, i in enumerate(ix)]
            dims, body, h = s.lam(x, sh, free)
            ex = tuple((k, v) for k, v in sorted(kw.items()) if v is not x and k not in ("axis", "axes"))
            return _mk("rowel", (t.args[0], tuple(dims), body, num(h), ex, tuple(ix[k] for k in ax), ax if len(ax) > 1 and tuple(sorted(ax)) != ax else ()), t.kind, True)
        if n == "convolve":
            a = kw.get("a", rest[0] if rest else None); v = kw.get("v", rest[-1] if rest else None)
            la = s.lam1(a); lv = s.lam1(v)
            return _mk("rowel", (t.args[0], la, lv, kw.get("mode", NONE), tuple(ix)), t.kind, True)
        return s.el(t, ix)

    def lam1(s, x):
        sh = s.shape(x)
        if sh is None or len(sh) != 1: s.und("a convolution of an array of unknown shape")
        dims, body, h = s.lam(x, sh, [None])
        return _mk("lam", (tuple(dims), body, num(h)), "any", False)

    def modn(s, i, L):
        """i mod L for -L <= i < 2L"""
        def f(i):
            i = s.sel(T.lt(i, num(0)), T.add(i, L), i)
            return s.sel(T.lt(i, L), i, T.sub(i, L))
        return T.lift(f, i)

    def at_gu(s, t, ix):
        if t.args[3] is not NONE and s.I.gulayout.get(t.args[0]) is None: return s.el(t, ix)
        ins, o = s.gu_core(t)
        nl = len(ix) - len(o)
        loop = ix[:nl]; rows = []
        for g, x in zip(ins, t.args[2]):
            sh = s.shape(x)
            if sh is None: return s.el(t, ix)
            ll = len(sh) - len(g)
            if ll < 0: s.und("a kernel argument with too few axes")
            li = loop[nl - ll:] if ll else ()
            li = tuple(num(0) if one(d) else i for d, i in zip(sh, li))
            dims, body, h = s.lam(x, sh, list(li) + [None] * len(g))
            rows.append(_mk("lam", (tuple(dims), body, num(h)), "any", False))
        prev = NONE
        if t.args[3] is not NONE and t.args[0] in s.keepers: prev = s.at(t.args[3], ix)
        return _mk("guel", (t.args[0], t.args[1], tuple(rows), tuple(ix[nl:]), prev), "any", True)
    keepers = frozenset()


# ---------------------------------------------------------------------- comparison
KEEP = _mk("sym", ("keep#", True), "any", True)

class Cmp:
    """do two gated scalars agree under the facts?"""
    def __init__(s, I, facts, limit=4000):
        s.I = I; s.F = list(facts); s.n = 0; s.limit = limit; s.leafpairs = 0

    def differ(s, x, y):
        """None when equal; (literals, x', y') of a branch where they are not shown equal"""
        if x is y: return None
        return s.walk(x, y, [], list(s.F))

    def walk(s, x, y, lits, F):
        s.n += 1
        if s.n > s.limit: raise Undecided("too many branches to compare")
        if x is y: return None
        v = None
        for t in (x, y):
            w = t.args[0] if t.op == "ite" else (t if t.kind == "bool" and t.op != "bool" else None)
            if w is not None and (v is None or w.id < v.id): v = w
        if v is None:
            s.leafpairs += 1
            if s.leaf(x, y, F): return None
            G = s.strengthen(lits, F)
            if G is None or len(G) > len(F) and s.leaf(x, y, G): return None
            if s.ordered(x, y, lits): return None
            if x.op == y.op == "lastof" and x.args[0] is y.args[0] and x.args[2] is y.args[2]:
                # every iteration writes the same values
                k = _mk("sym", ("last#%d" % s.I.height(x, y), True), "int", True)
                b = [T.subst(z.args[1], {T.bv(s.I.height(z.args[1]) - 1): k}, s.I.rebuild) for z in (x, y)]
                if s.walk(b[0], b[1], lits, F + [T.neg(k), T.add(T.sub(k, x.args[0]), num(1))]) is None: return None
            v = extremum(x, y)
            if v is None: return (lits, x, y)
            m, w, rest = v
            for val in (True, False):
                to = {m: w if val else rest}
                f = lin.literal_facts(T.lt(w, rest), val) if m.args[0] == "min" else lin.literal_facts(T.lt(rest, w), val)
                c = T.lt(w, rest) if m.args[0] == "min" else T.lt(rest, w)
                if c.op == "bool" and (c is TRUE) != val or f and s.dead(F + f): continue
                neg = c.op == "ite"
                if c.op == "bool": l2 = lits
                elif neg and c.args[1] is FALSE and c.args[2] is TRUE: l2 = lits + [(c.args[0], not val)]
                else: l2 = lits + [(c, val)]
                r = s.walk(T.subst(x, to, s.I.rebuild), T.subst(y, to, s.I.rebuild), l2, F + f)
                if r is not None: return r
            return None
        for val in (True, False):
            f = lin.literal_facts(v, val)
            F2 = F + f
            if f and s.dead(F2): continue
            if v.op == "eq0" and not val and v.args[0].kind == "int":
                # excluded when both sides force equality
                p = v.args[0]
                if lin.entails(F, p) and lin.entails(F, T.neg(p)): continue
            a, b = T.assume(s.cof(x, v, val), v, val), T.assume(s.cof(y, v, val), v, val)
            r = s.walk(a, b, lits + [(v, val)], F2)
            if r is not None: return r
        return None

    def strengthen(s, lits, F):
        """facts with the excluded equalities on the edge of the region used; None when nothing is left"""
        G = list(F)
        todo = [v.args[0] for v, val in lits if v.op == "eq0" and not val and v.args[0].kind == "int"]
        again = True
        while again:
            again = False
            for p in list(todo):
                lo, hi = lin.entails(G, p), lin.entails(G, T.neg(p))
                if lo and hi: return None
                if lo or hi:
                    G.append(T.add(p, num(1)) if lo else T.sub(num(1), p))
                    todo.remove(p); again = True
        if len(G) > len(F) and s.dead(G): return None
        conds = [(v, val) for v, val in lits if v.op not in ("lt0", "le0", "eq0")]
        if len(conds) > 1 and len({val for v, val in conds}) > 1:
            # one condition assumed both ways once the index equalities are used
            eqs = s.equalities(G); seen = {}
            for v, val in conds:
                v = T.subst(v, eqs, s.I.rebuild) if eqs else v
                if v.op == "bool" and (v is TRUE) != val or seen.setdefault(v, val) != val: return None
        return G

    def ordered(s, x, y, lits):
        """equal, or on no path, by the comparisons of real values made on the way.
        All the comparisons used are homogeneous, so that they hold for some rational values when they hold for some integers."""
        R = []
        for v, val in lits:
            if v.op in ("lt0", "le0") and homogeneous(v.args[0]):
                p = v.args[0]
                R.append((T.add(p, num(1)) if v.op == "lt0" else p) if val else (T.neg(p) if v.op == "lt0" else T.sub(num(1), p)))
        if not R: return False
        if lin.unsat(R): return True
        if x.kind != "real" or y.kind != "real": return False
        d = T.sub(x, y)
        return homogeneous(d) and lin.entails(R, d) and lin.entails(R, T.neg(d))

    def cof(s, t, v, val):
        if t is v: return TRUE if val else FALSE
        return T.cof(t, v, val)

    def dead(s, F):
        return lin.unsat(F)

    def leaf(s, x, y, F):
        """equal modulo index equalities that follow from the facts"""
        if x is y: return True
        ex = [a for a in T.walk(x) if a.op in ("el", "rowel", "guel")]
        ey = [a for a in T.walk(y) if a.op in ("el", "rowel", "guel")]
        m = {}
        for a in ex:
            for b in ey:
                if a is b or a.op != b.op: continue
                if s.same(a, b, F): m[a] = b; break
        m = {a: b for a, b in m.items()}
        x2 = T.subst(x, m, s.I.rebuild) if m else x
        if x2 is y: return True
        d = None
        if x2.kind in ("int", "real") and y.kind in ("int", "real"):
            d = T.sub(x2, y)
            if d.op == "num": return d.args[0].zero()
            if lin.entails(F, d) and lin.entails(F, T.neg(d)): return True
        # solve equalities on index variables
        eqs = s.equalities(F)
        if eqs:
            x3, y3 = T.subst(x2, eqs, s.I.rebuild), T.subst(y, eqs, s.I.rebuild)
            if x3 is y3: return True
        return False

    def same(s, a, b, F):
        """same array element: index arguments are equal under F"""
        def go(p, q):
            if p is q: return True
            if isinstance(p, tuple) and isinstance(q, tuple):
                return len(p) == len(q) and all(go(u, v) for u, v in zip(p, q))
            if isinstance(p, T.Term) and isinstance(q, T.Term):
                if p.kind == "int" and q.kind == "int" and p.op != "ite" and q.op != "ite":
                    d = T.sub(p, q)
                    return lin.entails(F, d) and lin.entails(F, T.neg(d))
                if p.op == q.op and p.op in ("lam", "poly") and len(p.args) == len(q.args): return go(p.args, q.args)
            return p == q
        if a.op == "el": return a.args[0] is b.args[0] and go(a.args[1], b.args[1])
        return go(a.args, b.args)

    def equalities(s, F):
        """variable substitutions implied by pairs of opposite facts"""
        m = {}
        fs = set(F)
        for p in F:
            if T.neg(p) in fs:
                for mono, c in T.to_poly(p).items():
                    if len(mono) == 1 and mono[0][1] == 1 and abs(c.re) == 1 and c.im == 0 and mono[0][0].op == "sym" and mono[0][0] not in m:
                        v = mono[0][0]
                        rest = T.from_poly({k: x for k, x in T.to_poly(p).items() if k != mono})
                        if v in T.walk(rest): continue
                        m[v] = T.mul(num(-c.re), rest)
                        break
        return m

    # -------------------------------------------------------------- witnesses
    def witness(s, x, y, lits, extra=(), maxval=9, budget=6000):
        """concrete sizes and index at which x and y select different values, or None"""
        syms = set()
        ints = lambda t: {a for a in T.walk(t) if a.op == "sym" and a.kind == "int" and a.scalar}
        for t in (x, y) + tuple(v for v, _ in lits): syms |= ints(t)
        rest = [(p, ints(p)) for p in s.F]; F = []
        while True:     # assumptions about other sizes do not matter
            new = [(p, z) for p, z in rest if z & syms]
            if not new: break
            rest = [q for q in rest if q not in new]
            for p, z in new: F.append(p); syms |= z
        F = [p for p in s.F if p in F or not ints(p)]
        syms = sorted(syms, key=lambda a: (not a.args[0].startswith("dim_"), a.args[0].startswith("q"), a.args[0]))
        cons = [("f", p) for p in F]
        for v, val in lits:
            if v.op in ("lt0", "eq0", "le0") and v.args[0].kind == "int" and all(a.op in ("sym", "num", "poly") or (a.op == "fun" and a.args[0] in ("floordiv", "mod", "min", "max", "abs")) for a in T.walk(v.args[0]) ): cons.append(("l", v, val))
        deps = []
        for c in cons:
            deps.append({a for a in T.walk(c[1]) if a.op == "sym"})
        cnt = [0]
        found = []
        def check(env):
            m = {k: num(v) for k, v in env.items()}
            a, b = T.subst(x, m, s.I.rebuild), T.subst(y, m, s.I.rebuild)
            if a is b: return False
            if s.opaque_equal(a, b): return False
            if valuecond(a) or valuecond(b):
                cnt[0] += 960
                if not sampled_differ(a, b, s.I.rebuild): return False
            return a, b
        def rec(k, env):
            if cnt[0] > budget: return None
            for c, d in zip(cons, deps):
                if d <= set(env) and (k == 0 or syms[k - 1] in d):
                    if not ev_con(c, env): return None
            if k == len(syms):
                cnt[0] += 40
                r = check(env)
                return (dict(env),) + r if r else None
            a = syms[k]
            lo = 0 if (a.args[0].startswith("dim_") or a.args[0].startswith("q")) else -2
            for v in range(lo, maxval + 1):
                cnt[0] += 1
                env[a] = v
                r = rec(k + 1, env)
                if r is not None: return r
                del env[a]
            return None
        r = rec(0, {})
        if r is not None or not syms or not (valuecond(x) or valuecond(y)): return r
        # larger sizes, for values that differ only at some elements
        import random
        rng = random.Random(11)
        for k in range(160):
            env = {}; top = rng.choice((12, 24, 40))
            for j, a in enumerate(syms):
                for tr in range(12):
                    env[a] = rng.randint(0 if (a.args[0].startswith("dim_") or a.args[0].startswith("q")) else -3, top)
                    if all(ev_con(c, env) for c, d in zip(cons, deps) if d <= set(env) and (j == 0 or a in d)): break
                else: break
            else:
                r = check(env)
                if r: return (dict(env),) + r
        return None

    def opaque_equal(s, a, b):
        """values that may still agree: anything unresolved on the index arithmetic"""
        for t in (a, b):
            for z in T.walk(t):
                if z.op == "fun" and z.args[0] in ("floordiv", "mod") and z.args[2].op == "num": pass
                if z.op in ("nth", "rank", "shape") or z.op == "dim" and z.args[0].op != "sym" and not isarange(z): return True
        # path feasibility with the remaining opaque conditions
        r = Cmp(s.I, [], 800).differ(a, b)
        return r is None and not (valuecond(a) and interpreted(a) and interpreted(b))

def isarange(t):
    return t.op == "dim" and t.args[0].op == "arange3" and t.args[1] in (0, num(0))

def interpreted(t):
    """every function in the value has its meaning when sampled"""
    for z in T.walk(t):
        if z.op in ("num", "poly", "bool", "ite", "lt0", "le0", "eq0", "lastof", "bv", "sym", "el"): continue
        if z.op == "conj" or z.op == "fun" and z.args[0] in ("min", "max", "abs", "ceil", "floor", "mod", "floordiv"): continue
        if isarange(z) or z.op == "arange3": continue
        if z.op == "np" and z.args[0].split(".")[-1] in ("max", "amax", "min", "amin") and z.kind != "cplx" and len(z.args[2]) == 1: continue
        return False
    return True

def homogeneous(p):
    """linear combination of real atoms without a constant"""
    if p.kind != "real": return False
    if p.op != "poly": return p.op != "num"
    return all(len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "real" and c.im == 0 for m, c in p.args[0])

def extremum(x, y):
    """an innermost minimum or maximum of real values"""
    for t in (x, y):
        for a in T.walk(t):
            if a.op == "fun" and a.args[0] in ("min", "max") and a.kind == "real" and len(a.args) > 2:
                if any(b is not a and b.op == "fun" and b.args[0] in ("min", "max") for b in T.walk(a)): continue
                if len(a.args) == 3: return a, a.args[1], a.args[2]
    return None

def valuecond(t):
    """does the value depend on comparisons of data values"""
    return any(z.op in ("lt0", "le0", "eq0") and z.args[0].kind != "int" or z.op == "fun" and z.args[0] in ("min", "max", "abs") and z.kind != "int" for z in T.walk(t))

def sampled_differ(a, b, rebuild=None, tries=120):
    """do two normal forms have different values for some values of their atoms; functions without a meaning here are any functions"""
    import random
    rng = random.Random(7)
    roots = thresholds(a, b)
    for k in range(tries):
        env = {}; seed = rng.random()
        def h(key, kind):
            r = random.Random(repr((seed, key)))
            if kind == "bool": return r.random() < 0.5
            v = r.randint(-6, 6) / 2. if k % 2 else r.uniform(-3, 3)
            if kind == "int": return r.randint(-2, 3)
            if kind == "real":
                # around and between the values at which a comparison of the value changes
                z = roots.get(key[0]) if key[-1] == "sym" else None
                if z and r.random() < 0.75:
                    j = r.randrange(2 * len(z) + 1)
                    if j % 2: return z[j // 2]
                    lo, hi = z[j // 2 - 1] if j else z[0] - 2, z[j // 2] if j < 2 * len(z) else z[-1] + 2
                    return lo + (hi - lo) * r.uniform(0.05, 0.95)
                return v
            return complex(v, r.randint(-2, 3))
        def go(t):
            if not isinstance(t, T.Term): return tuple(go(x) for x in t) if isinstance(t, tuple) else t
            if t in env: return env[t]
            r = env[t] = g(t)
            return r
        def g(t):
            if t.op == "num":
                v = t.args[0]
                return float(v.re) if not v.im else complex(float(v.re), float(v.im))
            if t.op == "poly":
                r = 0
                for m, c in t.args[0]:
                    x = float(c.re) if not c.im else complex(float(c.re), float(c.im))
                    for q, e in m: x = x * go(q) ** e
                    r += x
                return r
            if t.op == "bool": return t is TRUE
            if t.op == "ite": return go(t.args[1]) if go(t.args[0]) else go(t.args[2])
            if t.op in ("lt0", "le0", "eq0"):
                p = go(t.args[0])
                if isinstance(p, complex) and t.op != "eq0": p = p.real
                return p < -1e-9 if t.op == "lt0" else p <= 1e-9 if t.op == "le0" else abs(p) < 1e-9
            if t.op == "conj": return complex(go(t.args[0])).conjugate()
            if t.op == "fun" and t.args[0] in ("min", "max", "abs"):
                v = [go(x) for x in t.args[1:]]
                if t.args[0] == "abs": return abs(v[0])
                if not any(isinstance(x, complex) for x in v): return min(v) if t.args[0] == "min" else max(v)
            if t.op == "lastof":
                n, body, base = t.args
                m = go(n)
                if isinstance(m, complex) or m > 60: raise ZeroDivisionError
                m = max(0, int(m))
                hs = [x for x in T.walk(body) if x.op == "bv" and x in body.fv] or [x for x in T.walk(body) if x.op == "bv"]
                if len(set(hs)) > 1: raise Undecided("bound variables")
                for q in reversed(range(m)):
                    b = T.subst(body, {hs[0]: num(q)}, rebuild) if hs else body
                    r = go(b)
                    if r != "keep#": return r
                return go(base)
            if t is KEEP: return "keep#"
            if t.op == "sym" and t.args[0] == "pi": return math.pi
            if isarange(t):
                a, b, c = (go(x) for x in t.args[0].args)
                if not any(isinstance(x, complex) for x in (a, b, c)): return max(0, math.ceil((b - a) / c - 1e-9))
            if t.op == "fun" and t.args[0] in ("mod", "floordiv"):
                a, b = (go(x) for x in t.args[1:])
                if not any(isinstance(x, complex) for x in (a, b)): return a % b if t.args[0] == "mod" else a // b
            if t.op == "fun" and t.args[0] in ("ceil", "floor"):
                v = go(t.args[1])
                if not isinstance(v, complex): return float(getattr(math, t.args[0])(v - 1e-9 if t.args[0] == "ceil" else v + 1e-9))
            if t.op == "np" and t.kind != "cplx" and t.args[0].split(".")[-1] in ("max", "amax", "min", "amin") and len(t.args[2]) == 1:
                return (3 + 2 * random.Random(repr((seed, rnd(go(t.args))))).random()) * (1 if "max" in t.args[0] else -1)
            if t.op in ("lam", "sum", "bv", "rec", "psum"): raise Undecided("bound variables")
            if t.op in ("el", "sym", "guel", "rowel"):
                return h(tuple(rnd(go(x)) for x in t.args) + (t.op,), t.kind)
            return h(tuple(rnd(go(x)) for x in t.args) + (t.op,), t.kind)
        try:
            p, q = go(a), go(b)
        except ZeroDivisionError: continue
        except (Undecided, TypeError, OverflowError): return True
        if isinstance(p, (int, float, complex)) and isinstance(q, (int, float, complex)):
            if p != p or q != q: continue
            if abs(p - q) > 1e-7 * (1 + abs(p) + abs(q)): return True
        elif p != q: return True
    return False

def thresholds(*ts):
    """name of a real parameter: constants it is compared with"""
    res = {}
    for t in ts:
        for z in T.walk(t):
            if z.op not in ("lt0", "le0", "eq0") or z.args[0].op not in ("poly", "sym"): continue
            m = z.args[0].args[0] if z.args[0].op == "poly" else ((((z.args[0], 1),), num(1).args[0]),)
            if any(c.im for k, c in m): continue
            lin1 = [(k, c) for k, c in m if not all(q.op == "num" for q, e in k)]
            if len(lin1) != 1 or len(lin1[0][0]) != 1 or lin1[0][0][0][1] != 1: continue
            a, free = lin1[0][0][0][0], 0.
            if a.op != "sym" or a.kind != "real": continue
            try:
                for k, c in m:
                    if (k, c) in lin1: continue
                    x = float(c.re)
                    for q, e in k: x *= float(q.args[0].re) ** float(e)
                    free += x
            except (ZeroDivisionError, TypeError, OverflowError): continue
            if isinstance(free, float): res.setdefault(rnd(a.args[0]), set()).add(round(-free / float(lin1[0][1].re), 9))
    return {k: sorted(v) for k, v in res.items()}

def rnd(x):
    if isinstance(x, tuple): return tuple(rnd(y) for y in x)
    if isinstance(x, float): return round(x, 6)
    if isinstance(x, complex): return (round(x.real, 6), round(x.imag, 6))
    return x

def ev_con(c, env):
    try:
        v = ev(c[1].args[0] if c[0] == "l" else c[1], env)
    except (KeyError, ZeroDivisionError): return True
    if c[0] == "f": return v <= 0
    o = c[1].op
    return ((v < 0) if o == "lt0" else (v <= 0) if o == "le0" else (v == 0)) == c[2]

def ev(t, env):
    if t.op == "num": return t.args[0].re
    if t.op == "sym": return env[t]
    if t.op == "poly":
        r = 0
        for m, c in t.args[0]:
            x = c.re
            for a, e in m:
                b = ev(a, env)
                x = x * (b ** e if e > 0 else 1 / T.Fraction(b) ** (-e))
            r += x
        return r
    if t.op == "fun":
        a = [ev(x, env) for x in t.args[1:]]
        n = t.args[0]
        if n == "floordiv": return a[0] // a[1]
        if n == "mod": return a[0] % a[1]
        if n == "abs": return abs(a[0])
        if n == "min": return min(a)
        if n == "max": return max(a)
    raise KeyError(t)

def index_syms(n, tag=""):
    return tuple(T.sym("q%s%d" % (tag, k), "int", True) for k in range(n))

class Verdict:
    def __init__(s, status, detail="", pairs=0, terms=None): s.status, s.detail, s.pairs, s.terms = status, detail, pairs, terms

def compare_values(Ia, x, Ib, y, facts, care=TRUE, name="value", shape=None):
    """verdict on equality of two (array, scalar or tuple) values"""
    if x is y: return Verdict("equal", pairs=1)
    if x.op == "tup" and y.op == "tup" and (len(x.args) != len(y.args)): return Verdict("differ", "%s: %d items instead of %d" % (name, len(x.args), len(y.args)))
    if x.op == "tup" and y.op == "tup":
        n = 0; und = oth = None
        for k, (a, b) in enumerate(zip(x.args, y.args)):
            v = compare_values(Ia, a, Ib, b, facts, care, "%s[%d]" % (name, k), hintitem(shape, k, len(x.args)))
            if v.status == "differ": return v
            if v.status == "undecided": und = und or v
            if v.status == "other": oth = oth or v
            n += v.pairs
        return oth or und or Verdict("equal", pairs=n)
    if x.op == "ite" or y.op == "ite":
        # argument cases first: conditions that are not element conditions
        v = None
        for t in (x, y):
            if t.op == "ite" and not Ia.arraycond(t.args[0]) and (v is None or t.args[0].id < v.id): v = t.args[0]
        if v is not None and any(l.op == "tup" or l is NONE or not T.isnumeric(l) for t in (x, y) for l in T.leaves(t)):
            n = 0; und = oth = None
            for val in (True, False):
                f = lin.literal_facts(v, val)
                if f and lin.unsat(list(facts) + f): continue
                c2 = T.and_(care, T.ite(v, TRUE, FALSE) if val else T.ite(v, FALSE, TRUE))
                if c2 is FALSE: continue
                r = compare_values(Ia, T.assume(T.cof(x, v, val), v, val), Ib, T.assume(T.cof(y, v, val), v, val), list(facts) + f, c2, "%s when %s%s" % (name, "" if val else "not ", T.show(v)[:120]), shape)
                if r.status == "differ": return r
                if r.status == "undecided": und = und or r
                if r.status == "other": oth = oth or r
                n += r.pairs
            return oth or und or Verdict("equal", pairs=n)
    if not arrayish(x) or not arrayish(y): return Verdict("other", "%s: not numeric" % name)
    try:
        pa, pb = Pt(Ia, facts), Pt(Ib, facts)
        sa, sb = pa.shape(x), pb.shape(y)
        if isinstance(shape, tuple) and shape[:1] == ("hint",):
            # shapes of the arrays as created
            ha, hb = [h if isinstance(h, tuple) else None for h in shape[1:]]
            if ha is not None and not sa: sa = ha
            if hb is not None and not sb: sb = hb
            shape = None
        if shape is not None: sa = sb = shape
        if sa is None and sb is not None and shape is None: sa = sb
        if sb is None and sa is not None: sb = sa
        if sa is None: return Verdict("undecided", "%s: shape not known" % name)
        if len(sa) != len(sb): return Verdict("differ", "%s has %d axes instead of %d" % (name, len(sa), len(sb)))
        C = Cmp(Ia, list(facts) + lin.cond_facts(care))
        for k, (p, q) in enumerate(zip(sa, sb)):
            if p is q: continue
            d = C.differ(pa.scal(p), pb.scal(q))
            if d is not None:
                w = C.witness(pa.scal(p), pb.scal(q), d[0])
                if w is None: return Verdict("undecided", "%s: length of axis %d not decided (%s / %s)" % (name, k, T.show(p)[:120], T.show(q)[:120]))
                return Verdict("differ", "%s: axis %d has length %s instead of %s for %s" % (name, k, T.show(w[1]), T.show(w[2]), envtext(w[0])), terms=(w[1], w[2]))
        ix = index_syms(len(sa))
        F = list(facts) + lin.cond_facts(care)
        F += [T.neg(i) for i in ix]
        for i, d in zip(ix, sb):
            if d.op != "ite": F.append(T.add(T.sub(i, d), num(1)))
        pa.F = pb.F = F
        pa.memo.clear(); pb.memo.clear(); pa.smemo.clear(); pb.smemo.clear()
        care2 = care
        for i, d in zip(ix, sb):
            if d.op == "ite": care2 = T.and_(care2, T.lt(i, d))
        if (x.op == "tup") != (y.op == "tup") and sa and sa[0].op == "num" and sa[0] is sb[0] and T.pyval(sa[0]) <= 8:
            # items of a tuple against rows of an array
            lead = [num(k) for k in range(T.pyval(sa[0]))]
            col = lambda P, v: [P.bat(v, (k,) + ix[1:]) for k in lead]
            cx, cy = col(pa, x), col(pb, y)
            ex, ey = cx[-1], cy[-1]
            for k in reversed(range(len(cx) - 1)): ex, ey = T.ite(T.eq(ix[0], num(k)), cx[k], ex), T.ite(T.eq(ix[0], num(k)), cy[k], ey)
        else: ex, ey = pa.bat(x, ix), pb.bat(y, ix)
        if care2 is not TRUE: ex, ey = T.ite(care2, ex, num(0)), T.ite(care2, ey, num(0))
        C = Cmp(Ia, F)
        d = C.differ(ex, ey)
        if d is None: return Verdict("equal", pairs=C.leafpairs + 1)
        lits, lx, ly = d
        w = C.witness(ex, ey, lits)
        if w is None:
            r = enumerated(Ia, F, ex, ey, [(i, T.pyval(d)) for i, d in zip(ix, sb) if d.op == "num"])
            if r: return Verdict("equal", pairs=r)
        if w is None: return Verdict("undecided", "%s: not decided for\n   %s\n   %s\n   %s" % (name, [(T.show(v)[:150], k) for v, k in lits], T.show(lx)[:400], T.show(ly)[:400]))
        return Verdict("differ", "element [%s] of %s, %s:\n      found:    %s\n      expected: %s" % (", ".join(str(w[0].get(i, "any")) for i in ix), name, envtext({k: v for k, v in w[0].items() if k not in ix}), T.show(w[1])[:700], T.show(w[2])[:700]), C.leafpairs, (w[1], w[2]))
    except Undecided as e:
        return Verdict("undecided", "%s: %s" % (name, e))

def misfit(I, e, facts):
    """verdict on an element assignment of event e: the value fits (broadcasts to) the addressed region"""
    base, lenses, v, aug, operand, c = e.data
    if aug is not T.const("") or any(l.args[0] is not T.const("idx") for l in lenses.args) or len(lenses.args) > 1: return Verdict("other")
    if v.op == "tup" or not T.isnumeric(v) and v.kind != "bool": return Verdict("other")
    path = tuple(lenses.args[0].args[1].args) if lenses.args else ()
    if all(l.scalar for l in T.leaves(v)): return Verdict("equal")
    try: return _misfit(I, base, path, v, c, e.guard, list(facts), [0])
    except Undecided as u: return Verdict("undecided", str(u)[:200])

def _misfit(I, base, path, v, c, guard, facts, n):
    if guard is FALSE: return Verdict("equal")
    cond = next((x.args[0] for x in path + (v, c) if isinstance(x, T.Term) and x.op == "ite"), None)
    if cond is not None:
        n[0] += 1
        if n[0] > 64: return Verdict("undecided", "too many cases")
        for val in (True, False):
            lit = cond if val else T.not_(cond)
            g = T.and_(guard, lit)
            f = lambda x: T.restrict(x, lit) if isinstance(x, T.Term) else x
            r = _misfit(I, base, tuple(f(x) for x in path), f(v), f(c), g, facts + lin.literal_facts(cond, val), n)
            if r.status != "equal": return r
        return Verdict("equal")
    F = facts + lin.cond_facts(guard)
    P = Pt(I, F)
    sh = P.shape(c)
    if sh is None: sh = P.basedshape(c)
    if sh is None:
        t = I.shape_of(base)
        sh = t.args if t.op == "tup" else None
    sv = P.shape(v)
    if sh is None or sv is None: return Verdict("undecided", "shapes not known")
    if path: sh = P.path_shape(sh, path)
    if sh is None: return Verdict("undecided", "shapes not known")
    for k in range(1, len(sv) + 1):
        d = P.scal(sv[-k])
        r = P.scal(sh[-k]) if k <= len(sh) else num(1)
        if d is r or one(d): continue
        x, y = T.ite(T.or_(T.not_(guard), T.eq(d, num(1))), r, d), r
        C = Cmp(I, F)
        q = C.differ(x, y)
        if q is None: continue
        w = C.witness(x, y, q[0])
        if w is None or w[1].op != "num" or w[2].op != "num": return Verdict("undecided", "fit of axis -%d not decided" % k)
        return Verdict("differ", "an assignment of %s elements to %s elements along axis -%d for %s" % (T.show(w[1]), T.show(w[2]), k, envtext(w[0])))
    return Verdict("equal")

def enumerated(I, F, x, y, axes, most=300):
    """number of index combinations when the elements agree for every one of them (axes of known length), or 0"""
    n = 1
    for i, d in axes: n *= d
    if not axes or n > most: return 0
    for c in itertools.product(*[range(d) for i, d in axes]):
        m = {i: num(v) for (i, d), v in zip(axes, c)}
        a, b = T.subst(x, m, I.rebuild), T.subst(y, m, I.rebuild)
        if a is not b and Cmp(I, [T.subst(p, m, I.rebuild) for p in F], 2000).differ(a, b) is not None: return 0
    return n

def arrayish(x): return T.isnumeric(x) or x.op == "tup" and bool(x.args) and all(arrayish(y) for y in x.args)

def hintitem(shape, k, n):
    if not (isinstance(shape, tuple) and shape[:1] == ("hint",)): return None
    return ("hint",) + tuple(h[k] if isinstance(h, list) and len(h) == n else None for h in shape[1:])

def envtext(env):
    return ", ".join("%s=%s" % (k.args[0], v) for k, v in env.items()) or "any size"
