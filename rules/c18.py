"""C18: the grids of wave numbers, their magnitudes and angles, the rings of a sector and the averages over a ring equal
their definitions for every plane size, frame shape, angle, step, mask and selection."""
from cddmlint.harness import *
from cddmlint.terms import _mk

D = lambda n: T.sym("dim_" + n, "int", True)
I_ = lambda n: T.sym(n, "int", True)
M = "cddm.map."

def given(q, kind, shape):
    """a public function decided elsewhere: its results are named by its arguments"""
    def h(I, fo, args, kwargs):
        b, err = I.bind(fo, args, kwargs)
        if b is None: return None
        a = T.tup(*[T.tup(T.const(k), I.freeze(v)) for k, v in sorted(b.items())])
        def result(k, kd):
            c = _mk("sym", ("%s.%s#%d" % (q, k, a.id), kd), kd, False)
            sh = shape(I, b)
            if sh is None: return c
            I.shapes[c] = tuple(sh)
            return I.newref(c, T.tup(*sh), NONE)
        I.event("call", T.const(q), a, NONE)
        return T.tup(*[result(k, kd) for k, kd in enumerate(kind)]) if isinstance(kind, tuple) else result(0, kind)
    return h

def run(ctx):
    S = "spec.selection.ref_"
    sh = tupp("shape", scalar("height", "int"), scalar("width", "int"))
    pos = lambda I: [T.sub(num(1), I_(n)) for n in ("height", "width", "kisize", "kjsize")]
    for fn in ("fft2_grid", "rfft2_grid", "fft2_kangle", "rfft2_kangle"):
        for i, j in (("i", "j"), ("i", ""), ("", "j"), ("", "")):
            ps = [scalar("kisize", "int") if i else val("kisize", None), scalar("kjsize", "int") if j else val("kjsize", None)]
            ctx.equal("%s.%s%s" % (fn, i, j), M + fn, S + fn, ps, check=("ret", "raises"), facts=pos, point=True, peel=True)
            ctx.equal("%s.shape.%s%s" % (fn, i, j), M + fn, S + fn, ps + [sh], check=("ret", "raises"), facts=pos, point=True, peel=True)
    km = [arr("kmap", "real", ("h", "w")), arr("anglemap", "real", ("h", "w"))]
    p2 = lambda I: [T.sub(num(1), D(n)) for n in ("h", "w")]
    U = "spec.selection.use_"
    for oid, ang, sec in (("sector", scalar("angle", "real"), scalar("sector", "real")),) + tuple(("sector.at.%d.%d" % (x, y), val("angle", num(x)), val("sector", num(y))) for x, y in ((-180, 5), (-180, 180), (-90, 30), (-7, 1), (0, 180), (88, 5), (90, 180), (180, 5), (180, 90))):
        ctx.equal(oid, U + "index", S + "use_index", km + [ang, sec, scalar("kstep", "real")], check=("ret", "raises"), facts=p2, point=True, peel=True)
    ctx.equal("sector.default", U + "default", S + "use_default", km, check=("ret", "raises"), facts=p2, point=True, peel=True)

    # averages over rings
    size = lambda I, b: (b["kisize"], b["kjsize"])
    like = lambda n: (lambda I, b: I.shape_of(b[n]).args)
    def halved(I, b):
        s = I.shape_of(b["a"]).args
        return s[:-1] + (T.add(I.floordiv(s[-1], num(2)), num(1)),)
    hooks = {M + "fft2_kangle": given("kangle", ("real", "real"), size), M + "fft2_sector_indexmap": given("rings", "int", like("kmap")),
             M + "as_rfft2_conj": given("conj", "bool", halved), M + "as_rfft2_mask": given("mask", "bool", halved),
             M + "from_rfft2_data": given("full", "bool", lambda I, b: tuple(b["shape"].args))}
    d = [scalar("angle", "real"), scalar("sector", "real"), scalar("kstep", "real")]
    for mode in ("rfft2", "fft2"):
        for mask in ("", "mask", "flat"):
            for s_ in ("", "shape"):
                data = arr("data", "cplx", ("n", "p", "t") if mask == "flat" else ("n", "h", "w", "t"))
                m = arr("mask", "bool", ("h", "w")) if mask else val("mask", None)
                for k, ref in ((val("k", num(3)), "single"), (scalar("k", "real"), "single"), (tupp("k", scalar("k1", "real"), scalar("k2", "int")), "list"), (lst("k", scalar("k1", "real")), "list"), (val("k", None), "all"), (arr("k", "real", ("m",)), "array")):
                    ps = [data] + d + [k, sh if s_ else val("shape", None), m, val("mode", mode)]
                    oid = "select.%s%s%s.%s" % (mode, "." + mask if mask else "", "." + s_ if s_ else "", ref)
                    ctx.equal(oid, M + "k_select", S + ref, ps, check=("ret", "raises"), hooks=hooks, facts=pos)
    data = arr("data", "cplx", ("n", "h", "w", "t"))
    ctx.equal("select.default", M + "k_select", S + "default", [data, scalar("angle", "real")], check=("ret", "raises"), hooks=hooks, facts=pos)
    for name in ("sector", "kstep", "k", "shape", "mask", "mode"):
        v = {"shape": sh, "mask": arr("mask", "bool", ("h", "w")), "mode": val("mode", "fft2"), "k": val("k", num(2))}.get(name, scalar(name, "real"))
        ctx.equal("select.only." + name, M + "k_select", S + ("default" if name != "k" else "single_default"), [data, scalar("angle", "real"), kw(v)], check=("ret", "raises"), hooks=hooks, facts=pos)
    ctx.equal("select.badmode", M + "k_select", S + "default", [data, scalar("angle", "real"), kw(val("mode", "full"))], check=("ret", "raises"), hooks=hooks, facts=pos)
    for mode in ("rfft2", "fft2"):
        ks = [scalar("kisize", "int"), scalar("kjsize", "int")]
        ctx.equal("indexmap." + mode, M + "fft2_k_indexmap", S + "fft2_k_indexmap", ks + d + [val("shape", None), val("mode", mode)], check=("ret", "raises"), hooks=hooks, facts=pos)
        ctx.equal("indexmap.shape." + mode, M + "fft2_k_indexmap", S + "fft2_k_indexmap", ks + d + [sh, val("mode", mode)], check=("ret", "raises"), hooks=hooks, facts=pos)
        ctx.equal("indexmap.default." + mode, M + "fft2_k_indexmap", S + "fft2_k_indexmap", ks + [kw(val("mode", mode))], check=("ret", "raises"), hooks=hooks, facts=pos)
