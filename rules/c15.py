"""C15: element (level, ..., i) of multi-level data, and every (delay, value) pair of averaged and merged data,
equal the level layout of the reference for any number of wave vectors and every length in the ranges given
by the facts; the merged axis is increasing."""
from cddmlint.harness import *

D = lambda n: T.sym("dim_" + n, "int", True)
OP = {"cddm._core_nb.convolve"}
CHK = ("ret", "out", "raises")

def run(ctx):
    M = "cddm.multitau."
    S = "spec.delays."
    def eq(oid, fn, ps, facts=(), ref=None, lhs=None, check=CHK):
        ctx.equal(oid, lhs or M + fn, S + (ref or "ref_" + fn), ps, check=check, opaque=OP, facts=lambda I: list(facts) + [T.sub(num(1), D("k"))], point=True, peel=True)
    n = D("n")
    between = lambda lo, hi: [T.sub(num(lo), n), T.sub(n, num(hi))]
    for s in (4, 6):
        for L in (1, 2, 3, 4):
            lo, hi = (1 if L == 1 else s * 2 ** (L - 2) + 1), s * 2 ** (L - 1)
            for b in (1, 0, 2):
                eq("multilevel.size%d.levels%d.%s" % (s, L, "first mean choose".split()[b]), "multilevel", [arr("data", "real", ("k", "n")), val("level_size", s), val("binning", b)], between(lo, hi))
    eq("multilevel.1d", "multilevel", [arr("data", "real", ("n",)), val("level_size", 4), val("binning", 0)], between(9, 16))
    for f in (None, True, False):
        eq("multilevel.complex.fold%s" % f, "multilevel", [arr("data", "cplx", ("k", 19)), val("level_size", 4), val("binning", 1), val("fold", f)])
    for z in (1, 0, -3): eq("multilevel.size%d" % z, "multilevel", [arr("data", "real", ("k", "n")), val("level_size", z)])
    for b in (3, -1, 7): eq("multilevel.binning%d" % b, "multilevel", [arr("data", "real", ("k", "n")), val("level_size", 4), val("binning", b)])
    for L in (1, 2, 3, 5):
        for w in (2, 4, 10):
            for sh, t in (((L, "k", w), ""), ((L, w), ".1d"), ((L, "j", "k", w), ".3d")):
                for m in ("full", "half"):
                    if m == "full" and L == 1: continue
                    eq("merge.%s.%dx%d%s" % (m, L, w, t), "merge_multilevel", [arr("data", "real", sh), val("mode", m)])
    eq("merge.odd", "merge_multilevel", [arr("data", "real", (3, "k", 5)), val("mode", "half")])
    eq("merge.mode", "merge_multilevel", [arr("data", "real", (3, "k", 4)), val("mode", "other")])
    for s in (2, 3, 4):
        for L in (2, 3, 4):
            lo, hi = 2 * s * 2 ** (L - 2) + 1, 2 * s * 2 ** (L - 1)
            eq("log_average.size%d.levels%d" % (s, L), "log_average", [arr("data", "real", ("k", "n")), val("size", s)], between(lo, hi))
    eq("log_average.1d", "log_average", [arr("data", "real", ("n",)), val("size", 2)], between(9, 16))
    eq("log_average.default", "log_average", [arr("data", "real", ("k", "n"))], between(33, 64))
    for f in (None, True, False): eq("log_average.complex.fold%s" % f, "log_average", [arr("data", "cplx", ("k", 19)), val("size", 2), val("fold", f)])
    eq("log_average.size0", "log_average", [arr("data", "real", ("k", "n")), val("size", 0)])
    for s in (4, 6):
        for p in (1, 2, 3, 4, 8):
            for L in (1, 3):
                for b in (1, 0, 2):
                    if p == 1: continue
                    eq("log_merge.size%d.period%d.levels%d.%s" % (s, p, L, "first mean choose".split()[b]), "log_merge", [arr("lin", "real", ("k", s * p)), arr("multi", "real", (L, "k", s)), val("binning", b)])
    for L in (1, 3):
        eq("log_merge.default.levels%d" % L, "log_merge", [arr("lin", "real", ("k", 32)), arr("multi", "real", (L, "k", 8))])
        eq("log_merge.1d.levels%d" % L, "log_merge", [arr("lin", "real", (32,)), arr("multi", "real", (L, 8))])
    for f in (None, True, False): eq("log_merge.complex.fold%s" % f, "log_merge", [arr("lin", "cplx", ("k", 16)), arr("multi", "cplx", (2, "k", 4)), val("fold", f)])
    eq("log_merge.incompatible", "log_merge", [arr("lin", "real", ("k", 18)), arr("multi", "real", (2, "k", 4))])
    eq("log_merge.binning", "log_merge", [arr("lin", "real", ("k", 16)), arr("multi", "real", (2, "k", 4)), val("binning", 5)])
    for L in (1, 3):
        for w in (1, 4):
            eq("t_multilevel.%dx%d" % (L, w), "t_multilevel", [val("levels", L), val("n", w), scalar("period", "int")], lhs=S + "run_t_multilevel")
    eq("t_multilevel.default", "t_multilevel", [val("levels", 3), val("n", 4)], lhs=S + "run_t_multilevel")
    for s in (4, 6):
        for b in (1, 0):
            for m in (3, 7, 12, 24, 33):
                eq("multilevel_count.size%d.n%d.%d" % (s, m, b), "multilevel_count", [arr("count", "real", (m,)), val("level_size", s), val("binning", b)])
    for m in (9, 30): eq("log_average_count.n%d" % m, "log_average_count", [arr("count", "real", (m,)), val("size", 2)])
    for p in (2, 4):
        for b in (1, 0): eq("log_merge_count.period%d.%d" % (p, b), "log_merge_count", [arr("lin_count", "real", (4 * p,)), arr("multi_count", "real", (3, 4)), val("binning", b)])
    eq("log_merge_count.incompatible", "log_merge_count", [arr("lin_count", "real", (10,)), arr("multi_count", "real", (3, 4))])
