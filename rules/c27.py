"""C27: reshaping and masking of frames, and the way back, put every value at its own place, for every frame size,
divisor, mask and number of leading axes."""
from cddmlint.harness import *

D = lambda n: T.sym("dim_" + n, "int", True)
C = "cddm.core."
S = "spec.reshaping."
FR = {1: ("p",), 2: ("h", "w"), 3: ("h", "w", "d")}

A, B, E = D("a"), D("b"), D("e")
DIV = {1: (T.mul(A, E),), 2: (A, T.mul(B, E)), 3: (A, B, E)}    # frames that the divisor divides
by = {1: A, 2: T.mul(A, B), 3: T.mul(A, B)}

def atleast(k, *n): return [T.sub(num(k), D(x)) for x in n]

def run(ctx):
    ae, ab_ = T.mul(D("a"), D("e")), T.mul(D("a"), D("b"))
    prods = [T.add(T.sub(D("e"), ae), num(1)), T.add(T.sub(D("b"), ab_), num(1))]   # the divisor is more than one
    dims = lambda I: atleast(1, "h", "w", "d", "p", "n", "m") + atleast(2, "a") + atleast(1, "b", "e") + prods + [T.sub(num(1), T.sym("divisor", "int", True))]
    none = val("mask", None)
    for r in FR:
        for div in ("", "divisor"):
            for force in (None, False, True):
                ps = [tupp("shape", *[val(x, D(x)) for x in FR[r]]), scalar("divisor", "int") if div else val("divisor", None)] + ([] if force is None else [val("force_2d", force)])
                ctx.equal("thread_frame_shape.%dd%s.%s" % (r, "." + div if div else "", force), C + "thread_frame_shape", S + "ref_thread_frame_shape", ps, check=("ret", "raises"), facts=dims)
            for axis in range(-r - 2, r + 2):
                for mask in ("", "mask"):
                    if mask and div: continue
                    fr = DIV[r] if div else FR[r]
                    k = axis % (r + 1) if -r - 1 <= axis <= r and not mask else 0
                    ps = lambda x: [arr("f", "cplx", x[:k] + ("n",) + x[k:]), val("axis", axis), scalar("divisor", "int") if div else val("divisor", None), arr("mask", "bool", FR[r]) if mask else none]
                    oid = "reshape_input.%dd.axis%d%s%s" % (r, axis, "." + div if div else "", "." + mask if mask else "")
                    if div:
                        ctx.equal(oid + ".raises", C + "reshape_input", S + "ref_reshape_input", ps(FR[r]), check=("raises",), facts=dims)
                        p = ps(DIV[r])
                        p[2] = val("divisor", by[r])
                        ctx.equal(oid, C + "reshape_input", S + "ref_reshape_input", p, check=("ret", "raises"), facts=dims, point=True)
                    else:
                        ctx.equal(oid, C + "reshape_input", S + "ref_reshape_input", ps(FR[r]), check=("ret", "raises"), facts=dims, point=True)
    ctx.equal("reshape_input.masked.divisor", C + "reshape_input", S + "ref_reshape_input", [arr("f", "cplx", ("n", "h", "w")), val("axis", 0), scalar("divisor", "int"), arr("mask", "bool", ("h", "w"))], check=("ret", "raises"), facts=dims)
    f = arr("f", "cplx", ("n", "h", "w"))
    ctx.equal("reshape_input.default", C + "reshape_input", S + "ref_reshape_input", [f], check=("ret", "raises"), facts=dims)
    ctx.equal("reshape_input.mask", C + "reshape_input", S + "ref_reshape_input", [f, kw(arr("mask", "bool", ("h", "w")))], check=("ret", "raises"), facts=dims)

    one = D("a"), D("b"), D("e")
    ab, be, abe = T.mul(one[0], one[1]), T.mul(one[1], one[2]), T.mul(one[0], T.mul(one[1], one[2]))
    def shape(*n): return tupp("shape", *[val("s%d" % k, x) for k, x in enumerate(n)])
    frames = [("1d", (num(1), D("p")), (D("p"),), ""), ("1d.threads", (one[0], one[2]), (T.mul(one[0], one[2]),), ""), ("2d", (D("h"), D("w")), (D("h"), D("w")), ""),
              ("2d.threads", (ab, one[2]), (one[0], be), ""), ("3d", (D("h"), D("w"), D("d")), (D("h"), D("w"), D("d")), ""), ("3d.threads", (ab, one[2]), (one[0], one[1], one[2]), ""),
              ("masked", (D("p"),), (D("p"),), "mask"), ("masked.threads", (one[0], one[2]), (T.mul(one[0], one[2]),), "mask")]
    for name, frame, sh, mask in frames:
        for lead in ((), ("m",)):
            t = lambda n, k="cplx": arr(n, k, lead + frame + ("n",))
            for mr in ((1, 2, 3) if mask else (0,)):
                m = arr("mask", "bool", FR[mr]) if mask else none
                oid = "reshape_output.%s%s%s" % (name, ".levels" if lead else "", ".%dd" % mr if mr else "")
                for kind, data in (("corr", (t("corr"), arr("count", "int", lead + ("n",)), t("sq1", "real"), t("sq2", "real"), t("s1"), t("s2"))), ("diff", (t("diff", "real"), arr("count", "int", lead + ("n",)))),
                                   ("sparse", (t("corr"), arr("count", "int", lead + ("n",)), val("sq1", None), val("sq2", None), t("s1"), val("s2", None)))):
                    ctx.equal("%s.%s" % (oid, kind), C + "reshape_output", S + "out%d" % len(frame), [tupp("data", *data), shape(*sh), m], check=("ret", "raises"), facts=dims)
                ctx.equal(oid + ".list", C + "reshape_output", S + "out%d" % len(frame), [lst("data", t("diff", "real"), arr("count", "int", lead + ("n",))), shape(*sh), m], check=("ret", "raises"), facts=dims)
                ctx.equal(oid + ".array", C + "reshape_output", S + "arr%d" % len(frame), [t("data"), shape(*sh), m], check=("ret", "raises"), facts=dims)
        for mr in ((1, 2, 3) if mask else (0,)):
            m = arr("mask", "bool", FR[mr]) if mask else none
            ctx.equal("reshape_frame.%s.%d" % (name, mr), C + "reshape_frame", S + "ref_reshape_frame", [arr("frame", "cplx", frame), shape(*sh), m], check=("ret", "raises"), facts=dims)
    for lead in ((), ("m",), ("m", "k")):
        for kind in ("corr", "diff", "sparse"):
            t = lambda n, k="cplx": arr(n, k, lead + ("h", "w", "n"))
            data = {"corr": (t("corr"), arr("count", "int", ("n",)), t("sq1", "real"), t("sq2", "real"), t("s1"), t("s2")), "diff": (t("diff", "real"), arr("count", "int", ("n",))),
                    "sparse": (t("corr"), arr("count", "int", ("n",)), val("sq1", None), t("sq2", "real"), val("s1", None), t("s2"))}[kind]
            ctx.equal("take_data.%d.%s" % (len(lead), kind), "cddm.norm.take_data", S + "ref_take_data", [tupp("data", *data), arr("mask", "bool", ("h", "w"))], check=("ret", "raises"), facts=dims)
    G = "cddm.multitau._get_frames"
    one, two, m = arr("one", "cplx", ("h", "w")), arr("two", "cplx", ("h", "w")), arr("mask", "bool", ("h", "w"))
    for mk in (m, None):
        x = [m] if mk else [none]
        ctx.equal("frames.cross.%d" % bool(mk), G, S + "ref_get_frames", [tupp("d", one, two), val("cross", True)] + x, check=("ret", "raises"), facts=dims)
        ctx.equal("frames.single.%d" % bool(mk), G, S + "ref_get_frames", [arr("d", "cplx", ("h", "w")), val("cross", False)] + x, check=("ret", "raises"), facts=dims)
        ctx.equal("frames.tuple.%d" % bool(mk), G, S + "ref_get_frames", [tupp("d", one), val("cross", False)] + x, check=("ret", "raises"), facts=dims)
