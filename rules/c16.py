"""C16: element i of folded data and elements i, -i of shifted and equalized data are the defined combinations of
the input at delays i and -i, for every number of delays and leading axes."""
from cddmlint.harness import *

D = lambda n: T.sym("dim_" + n, "int", True)

def run(ctx):
    N = "cddm.norm."
    S = "spec.folding.ref_"
    m = T.sub(T.mul(num(2), D("n")), num(1))
    def eq(oid, fn, ps): ctx.equal(oid, N + fn, S + fn, ps, check=("ret", "out", "raises"), facts=lambda I: [T.sub(num(1), D("n")), T.sub(num(1), D("k"))], point=True, peel=True)
    for lead, t in ((("k",), ""), ((), ".1d"), (("j", "k"), ".3d")):
        d = arr("data", "cplx", lead + (m,), watch=True)
        eq("fold.default" + t, "fold_data", [d])
        for v in (0, 1, -1): eq("fold.mode%d%s" % (v, t), "fold_data", [d, val("mode", v)])
        for v in (2, -2): eq("fold.mode%d%s" % (v, t), "fold_data", [d, val("mode", v)])
        eq("shift" + t, "shift_data", [d])
        eq("equalize" + t, "equalize_data", [d])
    r = arr("data", "real", ("k", m))
    for fn in ("fold_data", "shift_data", "equalize_data"): eq("real." + fn, fn, [r])
    for v in (1, 2, 5):
        d = arr("data", "cplx", ("k", 2 * v - 1), watch=True)
        for w in (0, 1, -1): eq("fold.n%d.mode%d" % (v, w), "fold_data", [d, val("mode", w)])
        eq("shift.n%d" % v, "shift_data", [d])
        eq("equalize.n%d" % v, "equalize_data", [d])
