"""C06: estimators are identical, as normal forms, to their definitions."""
from .normcommon import *

def run(ctx):
    for norm in (1, 2, 5, 6, 9, 10, 13, 14):
        for cplx in (False, True):
            p = [corrdata(cplx, norm), background(), variance(), val("norm", norm), val("mode", "corr"), val("scale", False)]
            ctx.equal("corr.norm%d.%s" % (norm, "complex" if cplx else "real"), "spec.norms.lhs", "spec.norms.ref_corr", p, check=("ret",), norm=infinite, rparams=p + [val("cplx", cplx)])
    for norm in (2, 6):
        p = [tupp("data", arr("diff", "real", ("i", "j", "n")), arr("count", "int", ("n",)), arr("m1", "cplx", ("i", "j", "n")) if norm == 6 else val("m1", None), arr("m2", "cplx", ("i", "j", "n")) if norm == 6 else val("m2", None)),
             background(), variance(), val("norm", norm), val("mode", "diff"), val("scale", False)]
        ctx.equal("diff.norm%d" % norm, "spec.norms.lhs", "spec.norms.ref_diff", p, check=("ret",), norm=infinite)
