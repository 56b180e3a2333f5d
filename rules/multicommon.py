"""Iterative and in-memory multi-tau computation over a recording of known length: calls of the correlation functions become
named contributions, one name per pair of frame sets, squares, times, length, normalization and method."""
import itertools
from fractions import Fraction
from cddmlint.harness import *
from cddmlint.harness import mkarr
from cddmlint.point import Pt, index_syms
from cddmlint.terms import _mk
from cddmlint.arrays import mkslice
from cddmlint.interp import Undecided
from cddmlint.terms import ELLIPSIS

D = lambda n: T.sym("dim_" + n, "int", True)
NORM_STRUCTURED, NORM_SUBTRACTED = 2, 4
SLOTS = {True: ("corr", "count", "sq", "m1", "m2"), False: ("diff", "count", "m1", "m2")}

def none(v): return v is None or v is NONE

def pyv(v, what):
    try: return T.pyval(v)
    except Exception: raise Undecided("%s is not a known value: %s" % (what, T.show(v)[:80]))

def mkdict(I, d):
    oid = I.new("d")
    I.set((oid, "items"), T.tup(*[T.tup(T.const(k), v) for k, v in d.items()]))
    return _mk("dict", (oid,), "any", False)

def stats(I, fo, args, kwargs):
    """sums of the rows and of their squared magnitudes are added to the outputs"""
    b, err = I.bind(fo, args, kwargs)
    if b is None: return None
    f, o1, o2 = [b[k] for k in list(b)[:3]]
    sh = I.shape_of(f)
    if sh.op != "tup": raise Undecided("shape of frames")
    full = mkslice(NONE, NONE, NONE)
    for k in range(pyv(sh.args[-2], "number of frames")):
        x = I.val(I.getitem(f, (ELLIPSIS, num(k), full)))
        for o, y in ((o1, x), (o2, T.mul(x, T.conj(x)))): I.store_into(o, (ELLIPSIS,), T.add(I.val(o), y))
    return NONE

class Plan:
    """naming of contributions, shared by the code and its definition"""
    def __init__(s, facts=()):
        s.facts = list(facts)
        s.calls = []
        s.bylabel = {}
        s.frameshape = None
        s.order = False
    def pt(s, I): return Pt(I, list(I.rootfacts) + s.facts)

    def rows(s, I, x, axis):
        """elements of the rows of a stack at a generic index, and the shape of one row"""
        x0 = x
        sh = list(I.shape_of(x).args) if I.shape_of(x).op == "tup" else None
        if sh is None: raise Undecided("shape of frames")
        axis = axis % len(sh)
        n = pyv(sh[axis], "number of frames")
        fs = sh[:axis] + sh[axis + 1:]
        q = [num(0) if d is num(1) else i for d, i in zip(fs, index_syms(len(fs)))]
        v = I.freeze(x0)
        P = s.pt(I)
        return tuple(P.at(v, tuple(q[:axis]) + (num(k),) + tuple(q[axis:])) for k in range(n)), tuple(fs)

    def listed(s, I, x):
        xs = I.seqval(x).args
        P = s.pt(I)
        fs = P.bshape([I.freeze(x) for x in xs])
        if fs is None: raise Undecided("shape of frames")
        q = [num(0) if d is num(1) else i for d, i in zip(fs, index_syms(len(fs)))]
        return tuple(P.bat(I.freeze(y), tuple(q)) for y in xs), fs

    def times(s, I, t, n):
        if none(t): return [num(k) for k in range(n)]
        sh = I.shape_of(t)
        if sh.op != "tup" or len(sh.args) != 1: raise Undecided("time stamps")
        if T.pyval(sh.args[0]) != n: return None
        P = s.pt(I)
        v = I.freeze(t)
        return [P.at(v, (num(k),)) for k in range(n)]

    def name(s, I, kind, r1, r2, t1, t2, s1, s2, n, norm, method, cplx):
        if method not in ("corr", "fft", "diff"): raise Undecided("method %r" % (method,))
        structured = norm & NORM_STRUCTURED and method != "diff"
        sq = lambda r, v: None if r is None or not structured else v if v is not None else tuple(T.mul(x, T.conj(x)) for x in r)
        s1, s2 = sq(r1, s1), sq(r2, s2)
        if kind == "auto": t2 = t1
        if t1 is not None and t2 is not None:
            o = t1[0]
            t1, t2 = [T.sub(x, o) for x in t1], [T.sub(x, o) for x in t2]
        one = s.text(kind, r1, r2, t1, t2, s1, s2, n, norm, method, cplx)
        if kind == "auto" or cplx or t1 is None or t2 is None: return one, False
        o = t2[0]
        two = s.text(kind, r2, r1, [T.sub(x, o) for x in t2], [T.sub(x, o) for x in t1], s2, s1, n, norm, method, cplx)
        return (one, False) if one <= two else (two, True)

    def text(s, kind, r1, r2, t1, t2, s1, s2, n, norm, method, cplx):
        f = lambda x: "-" if x is None else ",".join(str(y.id) for y in x)
        return "%s|%s|%s|%s|%s|%s|%s|%d|%d|%s|%s" % (kind, f(r1), f(r2), f(t1), f(t2), f(s1), f(s2), n, norm, method, cplx)

    def parts(s, I, key, fs, n, norm, method, cplx, kind):
        """fresh contribution arrays"""
        N = 2 * n - 1 if cplx and kind == "cross" else n
        correlate = method != "diff"
        out = []
        for slot in SLOTS[correlate]:
            if slot == "sq" and not (norm & NORM_STRUCTURED) or slot in ("m1", "m2") and not (norm & NORM_SUBTRACTED) or slot == "m2" and kind == "auto": out.append(NONE); continue
            out.append(s.array(I, key, slot, fs, N, cplx))
        return out

    def array(s, I, key, slot, fs, N, cplx):
        # real-valued results do not depend on the order of the two sets, their means change places
        key, swapped = key
        if swapped: slot = {"m1": "m2", "m2": "m1"}.get(slot, slot)
        kd = {"count": "int", "sq": "real", "corr": "cplx" if cplx else "real", "diff": "real"}.get(slot, "cplx")
        sh = (num(N),) if slot == "count" else tuple(fs) + (num(N),)
        c = _mk("sym", ("%s of %s" % (slot, s.label(key)), kd), kd, False)
        I.shapes[c] = sh
        return I.newref(c, T.tup(*sh), NONE)

    names = {}
    def label(s, key):
        if isinstance(key, tuple): key = key[0]
        return "C%d" % s.names.setdefault(key, len(s.names))

    def spec(s, I, fo, args, kwargs):
        b, err = I.bind(fo, args, kwargs)
        kind = T.pyval(b["kind"])
        r1, fs = s.listed(I, b["rows1"])
        opt = lambda k: None if none(b[k]) else s.listed(I, b[k])[0]
        r2 = opt("rows2")
        t1 = s.times(I, b["t1"], len(r1))
        t2 = s.times(I, b["t2"], len(r2)) if r2 is not None else None
        n, norm, method, cplx = [pyv(b[k], k) for k in ("n", "norm", "method", "complex")]
        key = s.name(I, kind, r1, r2, t1, t2, opt("s1"), opt("s2"), n, norm, method, cplx)
        return T.tup(*s.parts(I, key, fs, n, norm, method, cplx, kind))

    def code(s, kind):
        def h(I, fo, args, kwargs):
            b, err = I.bind(fo, args, kwargs)
            if b is None: return None
            cross = kind == "cross"
            n, norm, method, cplx, axis = [pyv(b[k], k) for k in ("n", "norm", "method", "complex", "axis")]
            if norm is None or method is None: raise Undecided("norm and method are not given")
            f1, f2, t1, t2, s1, s2 = [b[k] if k else NONE for k in (("f1", "f2", "t1", "t2", "f1s", "f2s") if cross else ("f", None, "t", None, "fs", None))]
            r1, fs = s.rows(I, f1, axis)
            r2 = s.rows(I, f2, axis)[0] if cross else None
            sq = lambda x: None if none(x) else s.rows(I, x, axis)[0]
            aout = b["aout"]
            if not none(aout):
                aout = I.seqval(aout).args
                N = pyv(I.shape_of(aout[1]).args[-1], "length of the output")
                n = (N + 1) // 2 if cplx and cross else N
            if n is None: raise Undecided("length of the output is not given")
            tt1 = s.times(I, t1, len(r1))
            tt2 = s.times(I, t2, len(r2)) if cross else None
            key = s.name(I, kind, r1, r2, tt1, tt2, sq(s1), sq(s2), n, norm, method, cplx)
            s.calls.append((kind, r1, r2, sq(s1), sq(s2), n, I.where()))
            s.bylabel[s.label(key)] = s.calls[-1]
            if tt1 is None or cross and tt2 is None: key = "unequal times %d" % len(s.names), False
            res = s.parts(I, key, fs, n, norm, method, cplx, kind)
            if none(aout): return T.tup(*res)
            slots = SLOTS[method != "diff"]
            if len(slots) != len(aout): raise Undecided("output arrays of the %s method" % method)
            for o, slot in zip(aout, slots):
                if none(o): continue
                sh = I.shape_of(o)
                if slot != "count" and (sh.op != "tup" or len(sh.args) != len(fs) + 1): raise Undecided("shape of output")
                c = s.array(I, key, slot, fs, N, cplx)
                I.store_into(o, (ELLIPSIS,), T.add(I.val(o), I.val(c)))
            return T.tup(*aout)
        return h

    def hooks(s, **more):
        same = lambda I, fo, args, kwargs: args[0]
        def reshaped(I, fo, args, kwargs):
            b, err = I.bind(fo, args, kwargs)
            if b is None: return None
            return T.tup(*I.seqval(b["data"]).args, T.tup(I.freeze(b["shape"]), I.freeze(b["mask"])))
        h = {"cddm.core.ccorr": s.code("cross"), "cddm.core.acorr": s.code("auto"), "spec.multis.corr": s.spec,
             "cddm.print_tools.restores_verbose_iter": same, "cddm.print_tools.restores_verbose": same,
             "cddm.core.reshape_output": reshaped}
        h["cddm._core_nb._calc_stats_vec"] = stats
        h.update(more)
        return h

def frames(n, cross, fs=("h", "w")):
    cam = "ab" if cross else "a"
    return lst("data", *[tupp("m%d" % k, *[arr("%s%d" % (c, k), "cplx", fs) for c in cam]) for k in range(n)])

def multi(ctx, oid, cross, N, half, size, levels, stats=False, viewer=0, t=False, single=False, fs=("h", "w"), facts=None, check=("ret", "raises"), norm_=None, ref_=True, **o):
    """one iterative call on N frames against the plan"""
    opts = {k: v for k, v in (("level_size", size), ("chunk_size", half), ("count", o.get("count")), ("norm", o.get("norm")), ("method", o.get("method")), ("period", o.get("period")), ("binning", o.get("binning")),
            ("nlevel", o.get("nlevel")), ("thread_divisor", o.get("td")), ("auto_background", o.get("background")), ("mode", o.get("mode")), ("mask", o.get("mask")), ("complex", o.get("complex"))) if v is not None}
    P = Plan(facts(None) if facts else ())
    T_ = [arr("t1", "int", (N,)) if t else val("t1", None), arr("t2", "int", (N,)) if t and cross else val("t2", None)]
    head = [val("cross", cross), frames(N, cross, fs)] + T_ + ([val("n", size)] if single else [val("levels_", levels)]) + [val("stats", stats), val("viewer", viewer)]
    mk = lambda k, v: v if isinstance(v, Par) else val(k, v)
    if single: opts.pop("level_size")
    opts.setdefault("count", N)
    code = head + [Par("opts", lambda I: mkdict(I, {k: mk(k, v).build(I) for k, v in opts.items()}))]
    g = lambda k, d=None: mk(k, o.get(k, d))
    ref = head + [val("level_size", size), g("norm"), g("method"), g("count", N), g("period", 1), g("binning"), g("nlevel", 0 if single else None), val("chunk", half), g("td"), g("background", False), g("mode", "full"), g("mask"), g("complex", False)]
    f = "single" if single else "multi"
    if ref_ is None: return P, f, code, facts
    ctx.equal(oid, "spec.multis.lhs_" + f, "spec.multis.ref_" + f, code, check=check, rparams=ref, hooks=P.hooks(), facts=facts, point=True, peel=True, norm=norm_)
    return P

def memory(ctx, oid, cross, fs, size, levels, t=False, axis=0, facts=None, check=("ret", "raises"), norm_=None, ref_=True, **o):
    """one in-memory call on stacks of frames against the plan"""
    opts = {k: v for k, v in (("level_size", size), ("axis", axis), ("align", o.get("align")), ("norm", o.get("norm")), ("method", o.get("method")), ("period", o.get("period")), ("binning", o.get("binning")),
            ("nlevel", o.get("nlevel")), ("thread_divisor", o.get("td")), ("mask", o.get("mask")), ("complex", o.get("complex"))) if v is not None}
    P = Plan(facts(None) if facts else ())
    N = fs[axis]
    head = [val("cross", cross), arr("f1", "cplx", fs), arr("f2", "cplx", fs) if cross else val("f2", None)]
    head += [arr("t1", "int", (N,)) if t else val("t1", None), arr("t2", "int", (N,)) if t and cross else val("t2", None), val("levels_", levels)]
    mk = lambda k, v: v if isinstance(v, Par) else val(k, v)
    code = head + [Par("opts", lambda I: mkdict(I, {k: mk(k, v).build(I) for k, v in opts.items()}))]
    g = lambda k, d=None: mk(k, o.get(k, d))
    ref = head + [val("axis", axis), val("level_size", size), g("norm"), g("method"), g("period", 1), g("binning"), g("nlevel"), g("td"), g("mask"), g("complex", False)]
    if ref_ is None: return P, "memory", code, facts
    ctx.equal(oid, "spec.multis.lhs_memory", "spec.multis.ref_memory", code, assume=o.get("assume"), check=check, rparams=ref, hooks=P.hooks(), facts=facts, point=True, peel=True, norm=norm_)
    return P

def multi_run(ctx, cross, N, half, size, levels, hooks, **o):
    """the same call without a definition: plan and analysis"""
    P, f, code, facts = multi(ctx, "run", cross, N, half, size, levels, ref_=None, **o)
    return P, ctx.run("spec.multis.lhs_" + f, code, hooks=P.hooks(**hooks), facts=facts, peel=True)

def memory_run(ctx, cross, fs, size, levels, hooks, **o):
    P, f, code, facts = memory(ctx, "run", cross, fs, size, levels, ref_=None, **o)
    return P, ctx.run("spec.multis.lhs_memory", code, hooks=P.hooks(**hooks), facts=facts, peel=True, assume=o.get("assume"))
