"""C08: for every normalization code the difference representation computed by normalize() is, as a
normal form, 2*(v - g) of the correlation representation and scaling divides by the same variance
v = (v1 + v2)/2 once; scale_factor() and noise_delta() equal their definitions for one and two
cameras, masked or not; weights of weighted codes are computed from the same normalized signal
whether scaling is requested or not."""
from .normcommon import *
OPQ = {"cddm.norm.weight_from_data"}

def run(ctx):
    for norm in (1, 2, 5, 6, 9, 10, 13, 14):
        for cplx in (False, True):
            for mode, scale, m in (("diff", False, False), ("corr", True, False), ("diff", True, False), ("diff", True, True)):
                p = [corrdata(cplx, norm), background(), variance(), val("norm", norm), val("mode", mode), val("scale", scale)]
                ctx.equal(name("corr.norm%d" % norm, cx(cplx), mode, "scaled" if scale else "plain", "mask" if m else "all"), "spec.norms.lhs_any", "spec.norms.ref_any", p + [mask(m)], check=("ret",), rparams=p + [val("cplx", cplx), mask(m)])
    for norm in (2, 6):
        for mode, scale, m in (("diff", True, False), ("corr", True, False), ("corr", False, False), ("corr", True, True)):
            p = [diffdata(norm), background(), variance(), val("norm", norm), val("mode", mode), val("scale", scale)]
            ctx.equal(name("diff.norm%d" % norm, mode, "scaled" if scale else "plain", "mask" if m else "all"), "spec.norms.lhs_any", "spec.norms.ref_any", p + [mask(m)], check=("ret",), rparams=p + [val("cplx", False), mask(m)])
    for norm in (3, 7, 11, 15):
        for cplx in (False, True):
            for mode, scale, m in (("diff", False, False), ("corr", True, False), ("diff", True, False), ("diff", True, True)):
                p = [corrdata(cplx, norm), background(), variance(), val("norm", norm), val("mode", mode), val("scale", scale)]
                ctx.equal(name("corr.norm%d" % norm, cx(cplx), mode, "scaled" if scale else "plain", "mask" if m else "all"), "spec.norms.lhs_weighted", "spec.norms.ref_weighted", p + [mask(m), val("weight", None)], check=("ret",), rparams=p + [val("cplx", cplx), mask(m), val("weight", None)], opaque=OPQ)
    for m in (False, True):
        ctx.equal(name("scale_factor.two", "mask" if m else "all"), "cddm.norm.scale_factor", "spec.norms.factor", [variance(), mask(m)], check=("ret",))
        ctx.equal(name("scale_factor.one", "mask" if m else "all"), "cddm.norm.scale_factor", "spec.norms.factor_one", [arr("v", "real", ("i", "j")), mask(m)], check=("ret",), facts=big)
        ctx.equal(name("noise_delta.two", "mask" if m else "all"), "cddm.norm.noise_delta", "spec.norms.noise", [variance(), mask(m)], check=("ret",))
        ctx.equal(name("noise_delta.unscaled", "mask" if m else "all"), "cddm.norm.noise_delta", "spec.norms.noise_unscaled", [variance(), mask(m), val("scale", False)], check=("ret",))
        ctx.equal(name("noise_delta.one", "mask" if m else "all"), "cddm.norm.noise_delta", "spec.norms.noise_one", [arr("v", "real", ("i", "j")), mask(m)], check=("ret",), facts=big)
    for mode in ("corr", "diff"):
        ctx.equal(name("noise_mean", mode), "cddm.norm.noise_mean", "spec.norms.noise_mean", [arr("corr", "real", ("i", "n")), arr("v", "real", ("i",)), val("mode", mode)], check=("ret",))

def big(I):
    # a single variance array has more than two rows (two rows are two cameras)
    d = T.sym("dim_i", "int", True)
    return [T.sub(num(3), d)]
