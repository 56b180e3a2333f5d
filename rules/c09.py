"""C09: constant propagation through the code tables: names, flags and numbers of normalization codes
agree; for every code (0..16, -1) and every shape of data the set of accepted codes and the default
code are the documented ones, other codes raise a value error; every accepted code reaches an
estimator (the value equals the reference estimate, see C07)."""
import itertools
from .normcommon import *

NAMES = {"standard": 1, "structured": 2, "weighted": 3, "subtracted": 4, "compensated": 8, "baseline": 0, "none": 0}
CORE = {"cddm.core." + x for x in "auto_correlate auto_correlate_fft auto_difference auto_count auto_sum auto_sum_fft cross_correlate cross_correlate_fft cross_difference cross_count cross_sum cross_sum_fft".split()}

def run(ctx):
    names = sorted(NAMES)
    for k in (1, 2, 3):
        for c in itertools.permutations(names, k) if k < 3 else itertools.combinations(names, k):
            code = 0
            for n in c: code |= NAMES[n]
            if code % 4 == 0: code |= 1
            for text in ({"|".join(c), " | ".join(x.upper() for x in c)} if k < 3 else {"|".join(c)}):
                ctx.equal("name.%s" % text.replace(" ", "_"), "cddm.norm.norm_from_string", "spec.codes.named", [val("value", text)], check=("ret", "raises"), rparams=[val("code", code)])
    for text in ("foo", "standard|foo", "structuredx", ""):
        ctx.equal("name.invalid.%s" % (text or "empty"), "cddm.norm.norm_from_string", "spec.codes.accept", [val("value", text)], check=("exc",), rparams=[val("ok", False)])
    for b in itertools.product((False, True), repeat=4):
        if b[0] and b[2]: continue
        ctx.equal("flags.%d%d%d%d" % b, "spec.codes.lhs_flags", "spec.codes.flags", [val("f%d" % i, x) for i, x in enumerate(b)], check=("ret", "raises"))
    # admissible codes of correlation data with / without squared sums and signal sums
    for st, su in itertools.product((False, True), repeat=2):
        best = (3 if st else 1) | (4 if su else 0)
        kind = 2 * st + (4 if su else 0)
        full = best | (8 if su else 0)
        for norm in range(-1, 18):
            ok = norm in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15) and (norm & full) == norm
            p = [corrdata(False, (2 if st else 1) | (4 if su else 0)), background(), variance(), val("norm", norm)]
            ctx.equal(name("corr", "squares" if st else "nosquares", "sums" if su else "nosums", "code%d" % norm), "spec.codes.lhs_normalize", "spec.codes.accept", p, check=("exc",), rparams=[val("ok", ok)], opaque={"cddm.norm.weight_from_data"})
        p = [corrdata(False, (2 if st else 1) | (4 if su else 0)), background(), variance()]
        if best & 3 == 3:
            ctx.equal(name("corr.default", best), "spec.norms.lhs_weighted_plain", "spec.norms.lhs_weighted_plain", p + [val("norm", None)] + TAIL, check=("ret",), rparams=p + [val("norm", best)] + TAIL, opaque={"cddm.norm.weight_from_data"})
        else:
            ctx.equal(name("corr.default", best), "spec.norms.lhs_any", "spec.norms.lhs_any", p + [val("norm", None)] + TAIL[:-1], check=("ret",), rparams=p + [val("norm", best)] + TAIL[:-1])
    for su in (False, True):
        best = 6 if su else 2
        for norm in range(-1, 18):
            ok = norm in ((2, 6) if su else (2,))
            ctx.equal(name("diff", "sums" if su else "nosums", "code%d" % norm), "spec.codes.lhs_normalize", "spec.codes.accept", [diffdata(best), background(), variance(), val("norm", norm)], check=("exc",), rparams=[val("ok", ok)])
        p = [diffdata(best), background(), variance()]
        ctx.equal(name("diff.default", best), "spec.norms.lhs_any", "spec.norms.lhs_any", p + [val("norm", None)] + TAIL[:-1], check=("ret",), rparams=p + [val("norm", best)] + TAIL[:-1])
    # codes of the computing functions
    for method in ("corr", "fft", "diff"):
        for norm in list(range(-1, 17)):
            for fn, cross, args in (("acorr", False, ["f"]), ("ccorr", True, ["f1", "f2"])):
                ok = norm in ((1, 2, 3, 5, 6, 7) if method != "diff" else (2, 6) if cross else (2,))
                p = [arr(a, "cplx", ("t", "i", "j")) for a in args] + [val("n", 16), val("norm", norm), val("method", method)]
                ctx.equal(name(fn, method, "code%d" % norm), "spec.codes.lhs_" + fn, "spec.codes.accept", p, check=("exc",), rparams=[val("ok", ok)], opaque=CORE)
    for fn, args in (("acorr", ["f"]), ("ccorr", ["f1", "f2"])):
        for method in ("", "FFT", "unknown"):
            p = [arr(a, "cplx", ("t", "i", "j")) for a in args] + [val("n", 16), val("norm", 1), val("method", method)]
            ctx.equal(name(fn, "method-" + (method or "empty")), "spec.codes.lhs_" + fn, "spec.codes.accept", p, check=("exc",), rparams=[val("ok", False)], opaque=CORE)

TAIL = [val("mode", "corr"), val("scale", False), val("mask", None), val("weight", None)]
