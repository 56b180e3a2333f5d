"""Data tuples of acorr and ccorr, entry by entry."""
from .lagcommon import *

class RawCfg(Cfg):
    def __init__(s, fn, method, norm, ndim=3, axis=0, timed=False, cplx=False, squares=False, aout=False, align=None, contig=True):
        Cfg.__init__(s, fn, ndim, axis, timed, cplx, aout, align, False, True, "cplx", contig)
        s.method, s.norm, s.squares = method, norm, squares
        s.cross = fn == "ccorr"
    def oid(s):
        return ".".join([s.fn, s.method, "norm%s" % s.norm, "%dd" % s.ndim, "axis%d" % s.axis] + [w for w, on in (("times", s.timed), ("complex", s.cplx), ("squares" if s.squares is True else "squares%s" % s.squares, s.squares), ("out", s.aout), ("align", s.align), ("strided", not s.contig)) if on])
    def params(s):
        ax = tuple(s.axes()); rest = tuple(x for x in ax if x != "t")
        nsym = T.sym("n", "int", True)
        p = [arr("f1", "cplx", ax)] + ([arr("f2", "cplx", ax)] if s.cross else [])
        if s.timed:
            for nm, sy in zip(("t1", "t2") if s.cross else ("t",), ("t1", "t2")): p.append(kw(Par_as(nm, arr(sy, "int", ("t",)))))
        if s.squares:
            for nm, sy in zip(("f1s", "f2s") if s.cross else ("fs",), ("fs1", "fs2")):
                if s.squares is not True and s.squares != int(sy[-1]): continue
                p.append(kw(Par_as(nm, arr(sy, "real", ax))))
        p += [val("norm", s.norm, True), val("method", s.method, True), val("axis", s.axis, True)]
        if s.cplx: p.append(val("complex", True, True))
        if s.align is not None: p.append(val("align", s.align, True))
        if not s.aout: p.append(kw(Par_as("n", scalar("n", "int"))))
        else:
            K = T.sub(T.mul(num(2), nsym), num(1)) if s.cplx and s.cross else nsym
            ents = []
            for nm, w in s.wants():
                if w is None: ents.append(val(nm, None))
                elif nm == "count": ents.append(arr("a_count", "int", (K,), dtype="IDTYPE"))
                else: ents.append(arr("a_" + nm, w[0].kind, rest + (K,), dtype={"real": "FDTYPE", "cplx": "CDTYPE"}[w[0].kind]))
            p.append(tupp("aout", *ents, kw=True, watch=True))
        return p
    def wants(s):
        """documented entries: name -> list of contributions (None: absent)"""
        sg = s.cplx and s.cross
        k = "cplx" if s.cplx else "real"
        if s.method == "diff": main = [Want("diff", F1, F2 if s.cross else None, auto=not s.cross)]
        else: main = [Want("corr", F1, F2 if s.cross else None, signed=sg, real=not s.cplx, kind=k, auto=not s.cross)]
        out = [("main", main), ("count", [None])]
        st, su = s.norm & 2 and s.method != "diff", s.norm & 4
        if s.cross:
            if s.method != "diff": out.append(("sq", [Want("sum", "f1^2", signed=sg), Want("sum", "f2^2", signed=sg, mirrored=True)] if st else None))
            out.append(("m1", [Want("sum", F1, signed=sg, kind="cplx")] if su else None))
            out.append(("m2", [Want("sum", F2, signed=sg, kind="cplx", mirrored=True)] if su else None))
        else:
            su = su and s.method != "diff"
            if s.method != "diff": out.append(("sq", [Want("sum", "f1^2", auto=True, weight=2)] if st else None))
            out.append(("m1", [Want("sum", F1, kind="cplx", auto=True)] if su else None))
            out.append(("m2", None))
        return out

LABEL = {"main": "correlation or difference", "count": "count", "sq": "squared-signal sum", "m1": "first-camera sum", "m2": "second-camera sum"}

def verify_raw(ctx, cfg, stages, aspects):
    found = []
    ents = cfg.wants()
    outs = [T.sym("a_" + nm, w[0].kind if w and w[0] else "int", False) for nm, w in ents] if cfg.aout else []
    r = Run(ctx, cfg, CORE + cfg.fn, cfg.params(), outs)
    ret, raw = r.a.ret, r.a.raw
    if ret.op != "tup": raise Undecided("result %s" % T.show(ret)[:80])
    if len(ret.args) != len(ents): raise Problem("entry", "the data has %d entries, expected %d" % (len(ret.args), len(ents)))
    fin = r.a.out.get("aout")
    K = T.sub(T.mul(num(2), r.nsym), num(1)) if cfg.cplx and cfg.cross else r.nsym
    for i, (nm, w) in enumerate(ents):
        v, rw = ret.args[i], raw.args[i]
        try:
            if w is None:
                if v is not NONE: raise Problem("entry", "it is present although it was not requested: %s" % T.show(v)[:120])
                continue
            if v is NONE: raise Problem("entry", "it is missing")
            acc = T.sym("a_" + nm, w[0].kind if w[0] else "int", False) if cfg.aout else None
            af = fin.args[i] if cfg.aout else None
            if nm == "count":
                t1, t2 = r.t1, r.t2 if cfg.cross else r.t1
                nt = T.sym("dim_t", "int", True)
                # times may be shifted before counting
                count_value(ctx, r.I, v, rw, (t1, t2) if cfg.timed else None, nt, nt, cfg.cross, cfg.cplx and cfg.cross, acc, af, K, r.nsym, r.base, stages)
            else:
                entry(r, v, rw, w, acc, af, stages, swap=True)
        except Problem as e:
            found.append(Problem(e.aspect, "%s (entry %d): %s" % (LABEL[nm], i, e), e.where))
        except Undecided as e:
            found.append(Undecided("%s: %s" % (nm, e)))
    for e in [e for e in found if getattr(e, "aspect", None) in aspects] + found: raise e

def matrix(deep=False, aout=None):
    out = []
    for fn in ("ccorr", "acorr"):
        for method in ("corr", "fft", "diff"):
            for norm in ((2, 6) if fn == "ccorr" else (2,)) if method == "diff" else (1, 7) if not deep else (1, 2, 3, 5, 6, 7):
                for timed in (False, True):
                    for cplx in (False, True) if method != "diff" else (False,):
                        for ao in (False, True) if aout is None else (aout,):
                            out.append(RawCfg(fn, method, norm, timed=timed, cplx=cplx, aout=ao))
                            if norm == 7 and not timed: out.append(RawCfg(fn, method, norm, timed=timed, cplx=cplx, aout=ao, squares=True))
                            if fn == "ccorr" and norm == 7 and not timed and not cplx and not ao: out += [RawCfg(fn, method, norm, squares=k) for k in (1, 2)]
                            if deep or (norm == 7 and timed and not ao):
                                out.append(RawCfg(fn, method, norm, ndim=1, timed=timed, cplx=cplx, aout=ao))
                                out.append(RawCfg(fn, method, norm, ndim=2, axis=1, timed=timed, cplx=cplx, aout=ao))
                            if norm == 7 and not ao and not timed: out.append(RawCfg(fn, method, norm, ndim=2, axis=-1, timed=timed, cplx=cplx, aout=ao, squares=True, contig=False))
    return out

def decide(ctx, cfg, stages, aspects):
    def go():
        try: verify_raw(ctx, cfg, stages, aspects)
        except Problem as e:
            if e.aspect in aspects: ctx.bad(cfg.oid(), str(e), e.where or "cddm/core.py (%s)" % cfg.fn)
            else: ctx.und(cfg.oid(), "%s: %s" % (e.aspect, e))
            return
        ctx.ok(cfg.oid())
    ctx.guard(cfg.oid(), go)
