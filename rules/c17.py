"""C17: element (ki, kj) of cropped and converted planes equals the element of the input at the same wave vector
(or the conjugated one at its negative), for every frame size, limit and leading axes."""
from cddmlint.harness import *

D = lambda n: T.sym("dim_" + n, "int", True)
pos = lambda *n: [T.sub(num(1), D(x)) for x in n]

def run(ctx):
    F = "cddm.fft."
    M = "cddm.map."
    S = "spec.planes."
    size = [T.sub(num(1), T.sym(x, "int", True)) for x in ("height", "width")]
    def eq(oid, fn, ps, ref=None, facts=(), check=("ret", "out", "raises"), lhs=None, rparams=None):
        ctx.equal(oid, lhs or fn, S + (ref or "ref_" + fn.split(".")[-1]), ps, check=check, rparams=rparams or ps, facts=lambda I: pos("h", "w") + size + list(facts), point=True, peel=True)
    kf = lambda n: T.neg(T.sym(n, "int", True))
    for fn in ("rfft2_crop", "fft2_crop"):
        for lead, t in ((("n",), ""), ((), ".frame"), (("n", "k"), ".4d")):
            for kind in ("cplx", "real"):
                x = arr("x", kind, lead + ("h", "w"))
                if t and kind == "real": continue
                eq("%s.both%s.%s" % (fn, t, kind), F + fn, [x, scalar("kimax", "int"), scalar("kjmax", "int")], facts=[kf("kimax"), kf("kjmax")])
                eq("%s.rows%s.%s" % (fn, t, kind), F + fn, [x, scalar("kimax", "int")], facts=[kf("kimax")])
                eq("%s.columns%s.%s" % (fn, t, kind), F + fn, [x, val("kimax", None), scalar("kjmax", "int")], facts=[kf("kjmax")])
                eq("%s.none%s.%s" % (fn, t, kind), F + fn, [x])
        for v in ((0, 0), (0, 3), (2, 0)):
            eq("%s.%d-%d" % ((fn,) + v), F + fn, [arr("x", "cplx", ("h", "w")), val("kimax", v[0]), val("kjmax", v[1])])
            eq("%s.only.%d-%d" % ((fn,) + v), F + fn, [arr("x", "cplx", ("h", "w")), val("kimax", v[0])])
    for lead, t in (((), ""), (("n",), ".3d")):
        for kind, fill in (("cplx", float("nan")), ("real", float("nan")), ("bool", False)):
            a = arr("a", kind, lead + ("h", "w"))
            eq("as_rfft2_data%s.%s" % (t, kind), M + "as_rfft2_data", [a])
            eq("as_rfft2_conj%s.%s" % (t, kind), M + "as_rfft2_conj", [a], rparams=[a, val("fill", fill)])
        eq("as_rfft2_mask" + t, M + "as_rfft2_mask", [arr("a", "bool", lead + ("h", "w"))])
        for kind in ("cplx", "real", "bool"):
            a = arr("a", kind, lead + ("h", "w"))
            eq("from_rfft2_data%s.%s" % (t, kind), M + "from_rfft2_data", [a])
            eq("from_rfft2_data.shape%s.%s" % (t, kind), M + "from_rfft2_data", [a, tupp("shape", scalar("height", "int"), scalar("width", "int"))])
            for sh in ((7, 7), (8, 8), (8, 5)):
                eq("from_rfft2_data.%dx%d%s.%s" % (sh + (t, kind)), M + "from_rfft2_data", [arr("a", kind, lead + (sh[0], sh[1] // 2 + 1)), val("shape", sh)])
    for axes in ((0, 1), (1, 0), (-3, -2)):
        o = val("axes", axes, kw=True)
        for kind, fill in (("cplx", float("nan")), ("bool", False)):
            a = arr("a", kind, ("h", "w", "n"))
            t = "axes%d%d.%s" % (axes + (kind,))
            eq("as_rfft2_data." + t, M + "as_rfft2_data", [a, o], "ref_data_first", rparams=[a])
            eq("as_rfft2_conj." + t, M + "as_rfft2_conj", [a, o], "ref_conj_first", rparams=[a, val("fill", fill)])
            eq("from_rfft2_data." + t, M + "from_rfft2_data", [a, o], "ref_from_first", rparams=[a])
        eq("as_rfft2_mask.axes%d%d" % axes, M + "as_rfft2_mask", [arr("a", "bool", ("h", "w", "n")), o], "ref_mask_first", rparams=[arr("a", "bool", ("h", "w", "n"))])
    sh = tupp("shape", scalar("height", "int"), scalar("width", "int"))
    for i, j in (("i", "j"), ("i", ""), ("", "j"), ("", "")):
        ps = [scalar("kisize", "int") if i else val("kisize", None), scalar("kjsize", "int") if j else val("kjsize", None)]
        eq("as_fft2_shape.%s%s" % (i, j), M + "as_fft2_shape", ps)
        eq("as_fft2_shape.shape.%s%s" % (i, j), M + "as_fft2_shape", ps + [sh])
