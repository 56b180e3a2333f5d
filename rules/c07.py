"""C07: for every normalization code and data kind the value computed by normalize() is, as a
normal form, the documented estimator applied to the matching entries of the data (auto data: one
sum for both cameras), with masks applied to data, background and variance alike, and with a
supplied output array receiving the result; weighted codes are w*structured+(1-w)*standard."""
from .normcommon import *

PLAIN = (1, 2, 5, 6, 9, 10, 13, 14)
OPQ = {"cddm.norm.weight_from_data"}

def run(ctx):
    for norm in PLAIN:
        for cplx in (False, True):
            for auto in ((False, True) if norm & 12 else (False,)):
                for m in (False, True):
                    for mode in ("corr", "diff") if not m else ("corr",):
                        if mode == "corr" and not auto and not m and False: continue
                        p = [corrdata(cplx, norm, auto), background(), variance(), val("norm", norm), val("mode", mode), val("scale", False)]
                        ctx.equal(name("corr.norm%d" % norm, cx(cplx), "auto" if auto else "cross", mode, "mask" if m else "all"),
                                  "spec.norms.lhs_any", "spec.norms.ref_any", p + [mask(m)], check=("ret",), norm=infinite, rparams=p + [val("cplx", cplx), mask(m)])
            p = [corrdata(cplx, norm), background(), variance(), val("norm", norm), val("mode", "corr"), val("scale", False), arr("result", "cplx" if cplx else "real", ("i", "j", "n"), watch=True)]
            ctx.equal(name("corr.norm%d" % norm, cx(cplx), "out"), "spec.norms.lhs_out", "spec.norms.ref_out", p, norm=infinite, rparams=p + [val("cplx", cplx)])
    for norm in (2, 6):
        for mode in ("corr", "diff"):
            for m in (False, True):
                p = [diffdata(norm), background(), variance(), val("norm", norm), val("mode", mode), val("scale", False)]
                ctx.equal(name("diff.norm%d" % norm, mode, "mask" if m else "all"), "spec.norms.lhs_any", "spec.norms.ref_any", p + [mask(m)], check=("ret",), norm=infinite, rparams=p + [val("cplx", False), mask(m)])
        p = [diffdata(norm), background(), variance(), val("norm", norm), val("mode", "diff"), val("scale", False), arr("result", "real", ("i", "j", "n"), watch=True)]
        ctx.equal(name("diff.norm%d" % norm, "out"), "spec.norms.lhs_out", "spec.norms.ref_out", p, norm=infinite, rparams=p + [val("cplx", False)])
    for norm in (3, 7, 11, 15):
        for cplx in (False, True):
            k = "cplx" if cplx else "real"
            for m in (False, True):
                for w in (None, "given"):
                    wp = val("weight", None) if w is None else arr("weight", k, ("i", "j", "n") if not m else None)
                    p = [corrdata(cplx, norm), background(), variance(), val("norm", norm), val("mode", "corr"), val("scale", False)]
                    for l, r in (("lhs_weighted", "ref_weighted"), ("lhs_weighted_plain", "ref_weighted_plain")):
                        ctx.equal(name("corr.norm%d" % norm, cx(cplx), "mask" if m else "all", "weight-" + (w or "computed"), l), "spec.norms." + l, "spec.norms." + r, p + [mask(m), wp], check=("ret",), norm=infinite, rparams=p + [val("cplx", cplx), mask(m), wp], opaque=OPQ)
            wp = arr("weight", k, ("i", "j", "n"))
            o = arr("result", k, ("i", "j", "n"), watch=True)
            p = [corrdata(cplx, norm), background(), variance(), val("norm", norm), val("mode", "corr"), val("scale", False)]
            ctx.equal(name("corr.norm%d" % norm, cx(cplx), "out"), "spec.norms.lhs_weighted_out", "spec.norms.ref_weighted_out", p + [wp, o], norm=infinite, rparams=p + [val("cplx", cplx), wp, o])
    for cplx in (False, True):
        k = "cplx" if cplx else "real"
        p = [arr("x", k, ("i", "n")), arr("y", k, ("i", "n")), arr("weight", k, ("i", "n"))]
        ctx.equal(name("weighted_sum", cx(cplx)), "cddm.norm.weighted_sum", "spec.norms.ref_weighted_sum", p, check=("ret",), rparams=p + [val("cplx", cplx)])
        for mode in ("corr", "diff"):
            for pf in (False, True):
                p = [arr("corr", k, ("i", "j", "n")), arr("delta", "real", ("i", "j")), arr("v", "real", ("i", "j")), val("mode", mode), val("pre_filter", pf)]
                ctx.equal(name("weight_from_data", cx(cplx), mode, "filtered" if pf else "raw"), "spec.norms.lhs_weight", "spec.norms.ref_weight", p, check=("ret",), opaque={"cddm.avg.denoise"})
