"""C28: reported background and variance are mean and mean squared magnitude minus squared magnitude of the mean, over the
frames processed so far of the same camera; background removal takes each camera's own mean off every frame it correlates."""
from cddmlint.harness import *
from .multicommon import *

def picked(f):
    def norm(I, x):
        if x.op != "tup": raise Undecided("result of the call is not known")
        return f(x.args)
    return norm

def ofmulti(a):
    res, log = a
    out = list(res.args[4:6])
    if log.op == "tup": out += [T.tup(*e.args[1:]) if e.op == "tup" else e for e in log.args]
    return T.tup(*out)

def ofsingle(a):
    out = [a[2]]
    if a[3].op == "tup": out += [T.tup(*e.args[1:]) if e.op == "tup" else e for e in a[3].args]
    return T.tup(*out)

def run(ctx):
    M = "cddm.multitau."
    for cross in (True, False):
        c = "cross" if cross else "auto"
        for single in (False, True):
            f = picked(ofsingle if single else ofmulti)
            s = (c + ".single") if single else c
            L = 0 if single else 2
            S = dict(stats=True, single=single, norm_=f)
            multi(ctx, s, cross, 8, 2, 2, L, viewer=1, **S)
            multi(ctx, s + ".interval", cross, 8, 2, 2, L, viewer=3, **S)
            multi(ctx, s + ".whole", cross, 4, 4, 2, 0 if single else 1, viewer=1, **S)
            multi(ctx, s + ".chunk", cross, 8, 4, 2, L, mode="chunk", **S)
            multi(ctx, s + ".crop", cross, 11, 2, 2, L, **S)
            multi(ctx, s + ".count", cross, 9, 2, 2, 1 if not single else 0, count=5, viewer=1, **S)
            multi(ctx, s + ".background", cross, 8, 2, 2, L, background=True, viewer=1, **S)
            multi(ctx, s + ".mask", cross, 4, 2, 2, 0 if single else 1, mask=arr("mask", "bool", ("h", "w")), **S)
            multi(ctx, s + ".divisor", cross, 4, 2, 2, 0 if single else 1, td=2, fs=(6, 4), **S)
            multi(ctx, s + ".diff", cross, 8, 2, 2, L, method="diff", norm=2, **S)
            multi(ctx, s + ".norm1", cross, 8, 2, 2, L, norm=1, **S)
    for n in (1, 2, 3):
        f = [arr("f", "cplx", (n, "k")), arr("out1", "cplx", ("k",), True), arr("out2", "real", ("k",), True)]
        ctx.equal("kernel.%d" % n, "cddm._core_nb._calc_stats_vec", "spec.multis.add_rows", f, check=("out",), point=True, peel=True, inline=("cddm._core_nb._calc_stats_vec",))
    for ax in (0, 1, 2, -1):
        fs = tuple(3 if k == ax % 3 else "hw"[k - (k > ax % 3)] for k in range(3))
        a, b = arr("f1", "cplx", fs, True), arr("f2", "cplx", fs, True)
        two = lambda **k: dict(check=("ret", "out", "raises"), point=True, peel=True, **k)
        ctx.equal("stats.%d" % ax, "cddm.core.stats", "spec.multis.ref_stats", [a, val("f2", None), val("axis", ax)], **two())
        ctx.equal("stats.two.%d" % ax, "cddm.core.stats", "spec.multis.ref_stats", [a, b, val("axis", ax)], **two())
        bgs = tuple(d for d in fs if d != 3)
        for nm, bg in (("", val("bg", None)), (".given", arr("bg", "cplx", bgs, True))):
            for r in (False, True):
                for o in (val("out", None), arr("out", "cplx", fs, True)):
                    ctx.equal("subtract%s%s%s.%d" % (nm, ".bg" if r else "", ".out" if not o.name == "out" or o.watch else "", ax), "cddm.core.subtract_background", "spec.multis.ref_subtract", [a, val("axis", ax), bg, val("return_bg", r), o], **two())
    ctx.equal("stats.default", "cddm.core.stats", "spec.multis.ref_stats", [arr("f1", "cplx", (3, "h", "w"))], check=("ret", "raises"), point=True, peel=True)
    ctx.equal("subtract.default", "cddm.core.subtract_background", "spec.multis.ref_subtract", [arr("f1", "cplx", (3, "h", "w"))], check=("ret", "raises"), point=True, peel=True)
