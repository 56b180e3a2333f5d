"""Public lag functions (correlate, difference, sum, count; direct and FFT) down to the pair sums."""
from cddmlint.harness import *
from cddmlint import lin, lagsum as L
from cddmlint.lagsum import Problem, Spec, Kernel, A, B
from cddmlint.terms import Undecided, ELLIPSIS
from fractions import Fraction

CORE = "cddm.core."
NAMES = ("t", "i", "j")

class Cfg:
    """one configuration of a public function"""
    def __init__(s, fn, ndim=3, axis=0, timed=False, cplx=False, aout=False, align=None, inverted=False, n=True, data="cplx", contig=True):
        s.contig = contig
        s.fn, s.ndim, s.axis, s.timed, s.cplx, s.aout, s.align, s.inverted, s.n, s.data = fn, ndim, axis, timed, cplx, aout, align, inverted, n, data
        s.cross = fn.startswith("cross"); s.fft = fn.endswith("_fft")
        s.op = "corr" if "correlate" in fn else "diff" if "difference" in fn else "sum" if "_sum" in fn else "count"
    def oid(s):
        return ".".join([s.fn, "%dd" % s.ndim, "axis%d" % s.axis] + [w for w, on in (("times", s.timed), ("complex", s.cplx), ("out", s.aout), ("align", s.align), ("inverted", s.inverted), ("full", not s.n), ("strided", not s.contig), (s.data, s.data != "cplx")) if on])
    def axes(s):
        """axis names of the input; t is the time axis"""
        o = [x for x in NAMES[:s.ndim] if x != "t"]
        o.insert(s.axis % s.ndim, "t")
        return o
    def params(s):
        p = []
        ax = s.axes()
        if s.op == "sum" or not s.cross: p.append(arr("f1", s.data, tuple(ax)))
        else: p += [arr("f1", s.data, tuple(ax)), arr("f2", s.data, tuple(ax))]
        if s.timed:
            if s.op == "sum": names = ["t", "t_other"] if s.cross else ["t"]
            else: names = ["t1", "t2"] if s.cross else ["t"]
            syms = ["t1", "t2"]
            p += [kw(Par_as(nm, arr(sy, "int", ("t",)))) for nm, sy in zip(names, syms)]
        p.append(val("axis", s.axis, True))
        if s.align is not None: p.append(val("align", s.align, True))
        if s.cplx: p.append(val("complex", True, True))
        if s.inverted: p.append(val("time_inversion", True, True))
        nsym = T.sym("n", "int", True)
        if s.aout:
            rest = tuple(x for x in ax if x != "t")
            K = T.sub(T.mul(num(2), nsym), num(1)) if s.cplx and s.cross else nsym
            kind = s.outkind()
            p.append(arr("aout", kind, rest + (K,), True, True))
        elif s.n: p.append(kw(Par_as("n", scalar("n", "int"))))
        return p
    def outkind(s):
        if s.op in ("corr", "diff"): return "cplx" if s.cplx else "real"
        return s.data

def Par_as(name, p):
    p.name = name
    return p

def layout(t, names):
    """base array and axis names of a (transposed) view"""
    if t.op == "lens" and t.args[1][0] == "transpose":
        b, nm = layout(t.args[0], names)
        if nm is None: return b, None
        try: return b, [nm[T.pyval(i)] for i in t.args[1][1]]
        except Exception: raise Undecided("axis order")
    return t, names.get(t)

F1, F2 = "f1", "f2"

class Want:
    """definition of one result entry.  X, Y: sources (camera name, with "^2" for squared magnitudes);
    first: camera of the first time stamp set of X (1 or 2)"""
    def __init__(s, op, X, Y=None, signed=False, real=True, kind="real", auto=False, weight=1, mirrored=False):
        s.op, s.X, s.Y, s.signed, s.real, s.kind, s.auto, s.weight = op, X, Y, signed, real, kind, auto, weight
        s.mirrored = mirrored      # X belongs to the second camera: delay = t(X) - t(other)

class Run:
    """analysis of a public function with the names of its inputs"""
    def __init__(s, ctx, cfg, qual, params, outs=()):
        s.ctx, s.cfg = ctx, cfg
        s.nsym = T.sym("n", "int", True)
        s.base = [T.sub(num(1), s.nsym)] + [T.sub(num(1), T.sym("dim_" + x, "int", True)) for x in NAMES]
        s.a = ctx.run(qual, params, facts=s.base, assume={"contiguous": cfg.contig})
        s.I = s.a.I
        s.st = s.I.st
        if s.a.ret is None or s.a.dead: raise Problem("pairs", "a valid call is rejected: %s" % ", ".join(sorted({v if isinstance(v, str) else T.show(v) for c, v in s.a.raises})))
        ax = cfg.axes()
        s.rest = [x for x in ax if x != "t"]
        s.names, s.src = {}, {}
        for sy in ("f1", "f2", "fs1", "fs2"):
            for k in ("cplx", "real"):
                t = T.sym(sy, k, False); s.names[t] = ax; s.src[t] = sy if sy in ("f1", "f2") else sy.replace("fs", "f") + "^2"
        s.outs = outs
        for o in outs: s.names[o] = s.rest + ["lag"]
        s.t1, s.t2 = T.sym("t1", "int", False), T.sym("t2", "int", False)
        s.gus = {}
        for e in s.I.events:
            if e.kind == "gu": s.gus[(e.data[0].args[1], e.data[1])] = e
    def event(s, g):
        ev = s.gus.get((g.args[0].args[1].split("kernel:")[-1], T.tup(*g.args[2])))
        if ev is None: raise Undecided("kernel call of the result")
        return ev
    def shapes(s, g):
        ev = s.event(g)
        if ev.data[3].args and ev.data[3].args[0].op == "tup": return tuple(ev.data[3].args[0].args)
        sh = s.I.shape_terms(g.args[3])
        if sh is None: raise Undecided("shape of the kernel output")
        return tuple(sh)
    def source(s, v):
        """(camera, axis names, coefficient) of a kernel argument"""
        b, nm = layout(v, s.names)
        if b in s.src: return s.src[b], nm, num(1)
        if nm is None and b.op in ("poly", "fun") and b is v or b.op == "poly":
            po = list(T.to_poly(b).items())
            if len(po) == 1:
                (m, c), = po
                atoms = {}
                for a, e in m:
                    x, cj = (a.args[0], True) if a.op == "conj" else (a, False)
                    if x.op == "fun" and x.args[0] == "abs": atoms.setdefault(x.args[1], [0, 0]); atoms[x.args[1]][0] += e / 2; atoms[x.args[1]][1] += e / 2
                    else: atoms.setdefault(x, [0, 0])[int(cj)] += e
                if len(atoms) == 1:
                    (x, (e, ec)), = atoms.items()
                    bb, n2 = layout(x, s.names)
                    if bb in s.src and ("^" not in s.src[bb] or (e, ec) == (1, 0)):
                        if b is not v:
                            perm = v.args[1][1]; n2 = [n2[T.pyval(i)] for i in perm]
                        if (e, ec) == (1, 0): return s.src[bb], n2, T.num(c)
                        if e == ec == 1 or (bb.kind == "real" and (e, ec) == (2, 0)): return s.src[bb] + "^2", n2, T.num(c)
                        if (e, ec) == (0, 1): return "conj " + s.src[bb], n2, T.num(c)
        return None, None, None

def verify(ctx, cfg, stages):
    """run the stages ('pairs', 'term', 'accumulate') on one configuration; raises Problem / Undecided"""
    ao = T.sym("aout", cfg.outkind(), False)
    r = Run(ctx, cfg, CORE + cfg.fn, cfg.params(), (ao,))
    w = Want(cfg.op, F1, F2 if cfg.cross and cfg.op != "sum" else None, signed=cfg.cplx and cfg.cross, real=not cfg.cplx, kind=cfg.outkind(), auto=not cfg.cross, mirrored=cfg.inverted)
    if cfg.op == "sum" and cfg.inverted: w.inv = True
    entry(r, r.a.ret, r.a.raw, [w], ao if cfg.aout else None, r.a.out.get("aout"), stages, swap=False)

def entry(r, ret, raw, wants, ao, aofinal, stages, swap=False):
    """one result value is the (accumulated) sum of the wanted contributions"""
    if ao is not None and "accumulate" in stages:
        if aofinal is not ret: raise Problem("accumulate", "the supplied output does not receive the result: it holds %s" % T.show(aofinal)[:120])
        for x in T.leaves(raw):
            x = x.args[0] if x.op == "view" else x
            if x.op != "ref": raise Problem("accumulate", "a new array is returned instead of the supplied output")
    for leaf in T.leaves(ret): value(r, leaf, wants, ao, stages, swap)

def value(r, leaf, wants, ao, stages, swap):
    I = r.I
    todo = list(wants)
    auto1 = len(wants) == 1 and wants[0].op == "sum" and wants[0].auto
    if auto1: t, post = autosum(r, leaf, ao)
    else:
        t, post = leaf, None
        if t.op == "lens" and t.args[1][0] == "transpose": post = tuple(T.pyval(i) for i in t.args[1][1]); t = t.args[0]
    names_ = None      # axis names of the kernel output (outermost kernel defines the layout)
    first = True
    while True:
        if t.op != "gu": raise Undecided("result is not a kernel evaluation: %s" % T.show(t)[:100])
        outn, w = kernel(r, t, todo, stages, swap)
        todo.remove(w)
        if first:
            fin = outn if post is None else [outn[i] for i in post]
            if "pairs" in stages and fin != r.rest + ["lag"]: raise Problem("pairs", "axes of the result are %s, expected %s" % (fin, r.rest + ["lag"]), r.event(t).where)
        elif names_ is not None and names_(outn) is False: raise Problem("pairs", "contributions are added with different axes", r.event(t).where)
        first = False
        prev = t.args[3]
        p, perm = prev, None
        if p.op == "lens" and p.args[1][0] == "transpose": perm = tuple(T.pyval(i) for i in p.args[1][1]); p = p.args[0]
        if p.op == "gu":
            if not todo: raise Problem("accumulate", "an additional sum is added: %s" % T.show(p)[:120], r.event(p).where)
            names_ = (lambda o, perm=perm, want=outn: (o if perm is None else [o[i] for i in perm]) == want)
            t = p; continue
        break
    if todo: raise Problem("term", "the contribution of %s is missing" % ", ".join(w.X for w in todo), r.event(t).where)
    if "accumulate" in stages:
        if ao is not None and not auto1:
            b, pn = layout(prev, r.names)
            if b is not ao: raise Problem("accumulate", "the result accumulates on %s and not on the supplied output" % T.show(prev)[:80], r.event(t).where)
            if pn != outn: raise Problem("accumulate", "the supplied output is used with axes %s, expected %s" % (pn, outn), r.event(t).where)
        elif not (prev.op == "num" and prev.args[0].zero()):
            raise Problem("accumulate", "accumulation starts from %s instead of zeros" % T.show(prev)[:80], r.event(t).where)

def autosum(r, leaf, ao):
    """auto sums are half of the symmetric sums for non-zero delays (each pair counts both of its frames once).
    Returns the kernel term and the axis permutation of the result."""
    I = r.I
    gs = [x for x in T.walk(leaf) if x.op == "gu"]
    if len(gs) != 1: raise Undecided("auto sum: %d kernel values" % len(gs))
    g = gs[0]
    nd = r.cfg.ndim
    G = T.sym("@G", "cplx", False)
    I.shapes[G] = r.shapes(g)
    t = T.subst(leaf, {g: G}, I.rebuild)
    ks = [T.sym("@e%d" % i, "int", True) for i in range(nd)]
    I.rootfacts = list(r.base) + [T.sub(num(1), ks[-1])] + [T.neg(k) for k in ks]
    res = {}
    for at, nm in ((num(0), "0"), (ks[-1], "d")):
        pt = tuple(ks[:-1]) + (at,)
        v = I.idx(t, pt)
        acc = I.idx(ao, pt) if ao is not None else num(0)
        d = T.sub(v, acc)
        po = list(T.to_poly(d).items())
        if len(po) != 1 or len(po[0][0]) != 1 or po[0][0][0][1] != 1 or po[0][0][0][0].op != "idx" or po[0][0][0][0].args[0] is not G:
            if any(x.op in ("store", "lens") for x in T.walk(d)): raise Undecided("auto sum value %s" % T.show(d)[:100])
            raise Problem("accumulate" if ao is not None else "term", "auto sum at delay %s is %s (expected %s the symmetric sum)" % (nm, T.show(v)[:160], "the supplied output plus" if ao is not None else ""))
        w = po[0][1]
        want = num(1) if nm == "0" else num(Fraction(1, 2))
        if T.num(w) is not want: raise Problem("weight", "auto sum at delay %s is %s times the symmetric sum instead of %s" % (nm, T.show(T.num(w)), T.show(want)))
        path = po[0][0][0][0].args[1]
        try: perm = tuple(path.index(k) for k in pt)
        except ValueError: raise Problem("pairs", "auto sum at delay %s reads the symmetric sum at %s" % (nm, ", ".join(T.show(x) for x in path)))
        res[nm] = perm
    if res["0"] != res["d"]: raise Undecided("auto sum axes")
    return g, None if res["d"] == tuple(range(nd)) else res["d"]

def kernel(r, g, wants, stages, swap):
    """one kernel evaluation is one of the wanted contributions; returns (axis names of its output, the contribution)"""
    I, cfg, ctx = r.I, r.cfg, r.ctx
    ctx.sites += 1
    ev = r.event(g)
    where = ev.where
    qual = g.args[0].args[1].split("kernel:")[-1]
    fo = [f for f in I.visited if f.qual == qual]
    if not fo: raise Undecided("kernel source")
    fo = fo[0]
    vin = list(g.args[2])
    I.stack, I.fstack, I.loops = [], [], []
    I.rootfacts = list(r.base)
    srcs = [r.source(v) for v in vin]
    found = [k for k, nm, c in srcs if k is not None]
    cand = [w for w in wants if w.X in found and (w.Y is None or w.Y in found)]
    if not cand: raise Problem("term", "the result is computed from %s instead of %s" % (" and ".join(found) or "no input data", " or ".join(" and ".join(filter(None, (w.X, w.Y))) for w in wants)), where)
    w = cand[0]
    kern = Kernel(I, fo, vin, r.shapes(g), w.kind)
    I.st = r.st
    ndc = len(kern.outcore)
    data, times, coef = {}, [], num(1)
    for v, sy, core, (k, nm, c) in zip(vin, kern.syms, kern.cores, srcs):
        if not core: continue
        if k is not None:
            if nm is None: raise Undecided("axes of %s" % k)
            if nm[len(nm) - len(core)] != "t": raise Problem("pairs", "the kernel %s runs along axis %s instead of the time axis" % (fo.name, nm[len(nm) - len(core)]), where)
            if k in data: raise Problem("term", "data of %s is passed twice" % k, where)
            data[k] = (sy, nm, core)
            coef = T.mul(coef, c if w.op != "diff" else T.mul(c, c))
        elif sy in kern.subst: times.append(sy)
    if coef is not num(w.weight): raise Problem("weight", "%s enters with weight %s instead of %s" % (w.X, T.show(coef), w.weight), where)
    sy, nm, core = data[w.X]
    outn = nm[:len(nm) - len(core)] + ["lag"] + nm[len(nm) - len(core) + 1:]
    if w.Y is not None and data[w.Y][1] != nm: raise Problem("pairs", "the axes of both cameras differ", where)
    K = kern.outdims[0]
    nsym = r.nsym
    lengthgiven = cfg.n or cfg.aout
    if "pairs" in stages and lengthgiven:
        want = T.sub(T.mul(num(2), nsym), num(1)) if w.signed else nsym
        if K is not want: raise Problem("pairs", "the output holds %s delays, expected %s" % (T.show(K), T.show(want)), where)
    I.rootfacts = list(r.base)
    cs = L.contributions(I, kern.outref, kern.outdims, kern.events, kern.out, r.base + [T.sub(num(1), d) for d in kern.outdims])
    if not cs: raise Problem("pairs", "the kernel %s adds nothing" % fo.name, where)
    nt = T.sym("dim_t", "int", True)
    half = nsym if lengthgiven else None if cfg.timed else nt
    other = r.t2 if cfg.cross else r.t1
    ta, tb = (other, r.t1) if swap and w.mirrored else (r.t1, other)
    tA = (lambda k: I.idx(ta, (k,))) if cfg.timed else (lambda k: k)
    tB = (lambda k: I.idx(tb, (k,))) if cfg.timed else (lambda k: k)
    sp = Spec(op=w.op, X=data[w.X][0], Y=data[w.Y][0] if w.Y else None, tA=tA, tB=tB, nA=nt, nB=nt, signed=w.signed, K=K, half=half, auto=w.auto and w.op != "sum",
              real=w.real, facts=r.base + [T.sub(num(1), K)], sub=kern.subst, nd=ndc, inverted=w.mirrored, distinct=w.op == "corr" and w.auto and cfg.timed and any(L.isfft(x, "ifft") for c in cs for x in T.walk(c.value)))
    if ndc > 1: sp.facts = sp.facts + [T.neg(L.C), T.add(T.sub(L.C, kern.outdims[1]), num(1))]
    if w.mirrored: sp.lag = lambda: T.sub(tA(A), tB(B))
    if not lengthgiven: sp.fits = lambda m: []
    if "pairs" in stages or "term" in stages:
        if w.op == "sum":
            hasone = any(L.isfft(x, "fft") for c in cs for x in T.walk(c.value))
            if not times and not hasone:
                if cfg.timed: raise Problem("pairs", "time stamps are not used", where)
                L.check_regular_sum(I, sp, cs)
                return outn, w
            sp.T2 = frozenset(times)
        ps = L.pairs(I, sp, cs)
        if "pairs" in stages: L.check_pairs(I, sp, ps)
        if "term" in stages: L.check_terms(I, sp, ps)
    return outn, w

# ------------------------------------------------------------------ occurrence counts
class CountCfg:
    def __init__(s, cross, form="times", cplx=False, n=True, aout=False): s.cross, s.form, s.cplx, s.n, s.aout = cross, form, cplx, n, aout
    def oid(s): return ".".join(["cross_count" if s.cross else "auto_count", s.form] + [w for w, on in (("complex", s.cplx), ("full", not s.n and not s.aout), ("out", s.aout)) if on])

def verify_count(ctx, cfg, stages):
    nsym = T.sym("n", "int", True)
    base = [T.sub(num(1), nsym)] + [T.sub(num(1), T.sym(x, "int", True)) for x in ("dim_t", "dim_u", "N1", "N2")]
    p = []
    names = ["t1", "t2"] if cfg.cross else ["t"]
    for nm, sy, d, N in zip(names, ("t1", "t2"), ("t", "u"), ("N1", "N2")):
        if cfg.form == "single" and nm == "t2": continue
        p.append(Par_as(nm, scalar(N, "int") if cfg.form == "number" else arr(sy, "int", (d,))))
    if cfg.cplx: p.append(val("complex", True, True))
    K0 = T.sub(T.mul(num(2), nsym), num(1)) if cfg.cplx else nsym
    if cfg.aout: p.append(arr("aout", "int", (K0,), True, True, "IDTYPE"))
    elif cfg.n: p.append(kw(Par_as("n", scalar("n", "int"))))
    a = ctx.run(CORE + ("cross_count" if cfg.cross else "auto_count"), p, facts=base)
    if a.ret is None or a.dead: raise Problem("pairs", "a valid call is rejected: %s" % ", ".join(sorted({v if isinstance(v, str) else T.show(v) for c, v in a.raises})))
    N = lambda k: T.sym(k, "int", True)
    two = cfg.cross and cfg.form != "single"
    nA, nB = (N("N1"), N("N2") if two else N("N1")) if cfg.form == "number" else (N("dim_t"), N("dim_u") if two else N("dim_t"))
    t1 = T.sym("t1", "int", False); t2 = T.sym("t2", "int", False) if two else t1
    count_value(ctx, a.I, a.ret, a.raw, None if cfg.form == "number" else (t1, t2), nA, nB, cfg.cross, cfg.cplx, T.sym("aout", "int", False) if cfg.aout else None, a.out.get("aout"), K0 if cfg.n or cfg.aout else None, nsym, base, stages)

def count_value(ctx, I, ret, raw, times, nA, nB, cross, signed, acc, accfinal, K0, half, base, stages):
    r = raw.args[0] if raw.op == "view" else raw
    if r.op != "ref": raise Undecided("count result %s" % T.show(r)[:80])
    ev = [e for e in I.events if e.kind == "store" and e.data[0] is r]
    where = ev[-1].where if ev else ""
    sh = I.shape_of(raw)
    if sh.op != "tup" or len(sh.args) != 1: raise Undecided("shape of the count")
    K = sh.args[0]
    if "accumulate" in stages:
        if acc is not None:
            if accfinal is not ret: raise Problem("accumulate", "the supplied output does not receive the result: it holds %s" % T.show(accfinal)[:120], where)
        elif ev:
            c0 = L.initial(ev[0].data[5])
            if not (c0.op == "num" and c0.args[0].zero()): raise Problem("accumulate", "counting starts from %s instead of zeros" % T.show(c0)[:80], where)
    if "pairs" in stages and K0 is not None and K is not K0: raise Problem("pairs", "the output holds %s delays, expected %s" % (T.show(K), T.show(K0)), where)
    I.loops, I.rootfacts = [], list(base)
    if acc is None: ev = [e for e in ev if not (e.data[2].op == "num" and not e.loops and e.data[2].args[0].zero())]
    cs = L.contributions(I, r, [K], ev, acc if acc is not None else T.sym("@none"), base + [T.sub(num(1), K)])
    if not cs: raise Problem("pairs", "nothing is counted", where)
    if times is None: tA = tB = lambda k: k; t1 = t2 = None
    else:
        t1, t2 = times
        tA = lambda k: I.idx(t1, (k,))
        tB = lambda k: I.idx(t2, (k,))
    sp = Spec(op="count", X=None, T1=t1, T2=t2, tA=tA, tB=tB, nA=nA, nB=nB, signed=signed, K=K, half=half, auto=not cross, facts=base + [T.sub(num(1), K)], nd=1)
    if K0 is None: sp.fits = lambda m: []
    if "pairs" in stages or "term" in stages:
        first = None
        for imp, swap in ([(k, False) for k in (1, 2, 3, 4)] if times is None else [(0, False), (0, True)] if t1 is t2 and cross else [(0, False)]):
            sp.implicit, sp.swap = imp, swap
            try:
                ps = L.pairs(I, sp, cs)
                if "pairs" in stages: L.check_pairs(I, sp, ps)
                if "term" in stages: L.check_terms(I, sp, ps)
                break
            except Problem as e: first = first or e
        else: raise first
    ctx.sites += len(cs)

# ------------------------------------------------------------------ running a matrix of configurations
DIRECT = ("cross_correlate", "auto_correlate", "cross_difference", "auto_difference", "cross_sum", "auto_sum")
FFT = ("cross_correlate_fft", "auto_correlate_fft", "cross_sum_fft", "auto_sum_fft")

def matrix(fn, deep=False):
    """configurations of one public function"""
    corr, cross, fft, sm = "correlate" in fn, fn.startswith("cross"), fn.endswith("fft"), "_sum" in fn
    cplx = (False, True) if corr or (sm and cross) else (False,)
    timed = (True,) if fft and sm else (False, True)
    out = []
    def add(**k): out.append(Cfg(fn, **k))
    for c in cplx:
        for t in timed:
            add(ndim=3, axis=0, timed=t, cplx=c)
            add(ndim=1, timed=t, cplx=c)
            add(ndim=3, axis=0, timed=t, cplx=c, aout=True)
            if sm and cross and (t or c): add(ndim=3, axis=0, timed=t, cplx=c, inverted=True)
            if sm and cross and t: add(ndim=1, timed=t, cplx=c, inverted=True)
            if sm: add(ndim=3, axis=0, timed=t, cplx=c, data="real")
            add(ndim=3, axis=0, timed=t, cplx=c, n=False)
            add(ndim=2, axis=1, timed=t, cplx=c, contig=True)
            if not fft:
                add(ndim=3, axis=-1, timed=t, cplx=c, contig=False)
                add(ndim=3, axis=0, timed=t, cplx=c, align=True)
            if deep:
                add(ndim=3, axis=1, timed=t, cplx=c)
                add(ndim=3, axis=-2, timed=t, cplx=c, aout=True)
                add(ndim=1, timed=t, cplx=c, aout=True)
                add(ndim=2, axis=0, timed=t, cplx=c, n=False)
                add(ndim=2, axis=-1, timed=t, cplx=c, aout=True)
                if not fft: add(ndim=3, axis=2, timed=t, cplx=c, align=True, aout=True, contig=False)
    return out

def counts(deep=False):
    for cross in (True, False):
        for form in (("times", "single", "number") if cross else ("times", "number")):
            for cplx in ((False, True) if cross else (False,)):
                for n, ao in ((True, False), (False, False), (False, True)): yield CountCfg(cross, form, cplx, n, ao)

def decide(ctx, cfg, stages, aspects):
    """one obligation; only problems of the given aspects are violations of this property"""
    def go():
        try:
            (verify_count if isinstance(cfg, CountCfg) else verify)(ctx, cfg, stages)
        except Problem as e:
            if e.aspect in aspects: ctx.bad(cfg.oid(), str(e), e.where or "cddm/core.py (%s)" % (cfg.oid().split(".")[0]))
            else: ctx.und(cfg.oid(), "%s: %s" % (e.aspect, e))
            return
        ctx.ok(cfg.oid())
    ctx.guard(cfg.oid(), go)
