"""C19: with the library functions of every backend reduced to the transform they compute, each transform of the
package equals, for every selectable backend name, the transform of the right direction and dimensionality of every
frame with the caller's options passed on; the half-plane transform is returned in the configured complex type; the
FFT correlation functions have one and the same normal form whatever the backend.  (That a backend which is not
installed can not become selected is decided with the setters.)"""
from cddmlint.harness import *
from cddmlint.arrays import mkslice
from cddmlint.terms import ELLIPSIS
from .c23 import video, elems, where
from . import lagcommon as LC

BACKENDS = ("numpy", "scipy", "mkl_fft", "pyfftw")
INSTALLED = {"cddm.conf.%s_INSTALLED" % n: True for n in ("MKL_FFT", "SCIPY", "PYFFTW", "NUMBA", "CV2", "PYQTGRAPH")}
PREFIX = ("numpy.fft.", "mkl_fft.", "scipy.fftpack.", "scipy.fft.", "pyfftw.interfaces.scipy_fftpack.", "pyfftw.interfaces.scipy_fft.", "pyfftw.interfaces.numpy_fft.", "mkl_fft.interfaces.numpy_fft.", "mkl_fft._numpy_fft.", "mkl_fft.interfaces.scipy_fft.")
OWNER = {"numpy": ("numpy.fft.",), "scipy": ("scipy.",), "mkl_fft": ("mkl_fft.",), "pyfftw": ("pyfftw.",)}
TUNING = ("overwrite_x", "threads", "workers", "planner_effort", "auto_align_input", "auto_contiguous", "avoid_copy", "overwrite_input")
OVER = ("overwrite_x", "overwrite_input")

def last2(v):
    if v.op == "list" or v.op != "tup" or len(v.args) != 2: return False
    return all(x.op == "num" for x in v.args) and [T.pyval(x) for x in v.args] == [-2, -1]

def hook(name, base):
    def f(I, nm, args, kwargs):
        full = False
        args, kwargs = list(args), dict(kwargs)
        over = [kwargs[k] for k in OVER if k in kwargs]
        for k in TUNING: kwargs.pop(k, None)
        x = args[0] if args else kwargs.pop("x", kwargs.pop("a", None))
        if x is None: raise Undecided("call of %s" % name)
        args = [x] + args[1:]
        I.event("fft", const(name), I.freeze(x), over[0] if over else FALSE, x if x.op in ("ref", "view") else NONE)
        if "shape" in kwargs: kwargs["s"] = kwargs.pop("shape")
        for k, v in list(kwargs.items()):
            if k == "axes":
                if v.op == "list": v = I.seqval(v)
                if last2(v) and base in ("fft2", "ifft2", "rfft2", "fftn", "ifftn", "rfftn", "rfftn_numpy"): kwargs.pop(k); full = True
            if k == "axis" and v is num(-1): kwargs.pop(k)
        b = base
        if base in ("fftn", "ifftn", "rfftn", "rfftn_numpy", "irfftn") and "axes" not in kwargs and full: b = base.replace("_numpy", "")[:-1] + "2"
        elif base == "rfftn_numpy" and "axes" in kwargs: raise Undecided("axes of %s" % name)
        elif base in ("fftn", "ifftn", "rfftn"): b = base + "_all"
        half = b == "rfft2"
        if half:
            # the half plane of the full transform
            b = "fft2"
        xs = I.shape_of(args[0])
        r = I.npfun("fft." + b, args, kwargs)
        n = kwargs.get("s")
        sh = None
        if n is not None and n.op == "tup" and len(n.args) == 2 and xs.op == "tup": sh = T.tup(*(xs.args[:-2] + n.args))
        elif n is None and len(args) == 1 and xs.op == "tup": sh = xs
        if sh is not None and r.op == "np": I.shapes.setdefault(r, sh.args)
        if half:
            if sh is None: raise Undecided("length of a half-plane transform")
            w = T.add(I.floordiv(sh.args[-1], num(2)), num(1))
            r = I.getitem(r, (ELLIPSIS, mkslice(num(0), w, NONE)))
        return r
    return f

def fft_hooks():
    h = {}
    for p in PREFIX:
        for b in ("fft", "ifft", "fft2", "ifft2", "rfft2", "fftn", "ifftn", "rfftn"): h[p + b] = hook(p + b, b)
    h["mkl_fft.rfftn_numpy"] = hook("mkl_fft.rfftn_numpy", "rfftn_numpy")
    h["pyfftw.interfaces.cache.enable"] = lambda I, n, a, k: NONE
    return h

def run(ctx):
    H = dict(fft_hooks())
    H.update({k: TRUE for k in INSTALLED})
    n = 2
    X = lambda kind="cplx": video("x", n, 2, kind)
    for lib in BACKENDS:
        conf = {"fftlib": lib, "rfft2lib": lib}
        def decide(oid, name, params, over=None, cdtype=False, lib=lib, conf=conf, user="x"):
            def go():
                a = ctx.run("spec.ffts.run_" + name, params, conf=conf, hooks=H)
                b = ctx.run("spec.ffts.ref_" + name, params, conf={"fftlib": "numpy", "rfft2lib": "numpy"}, hooks=H)
                k0 = len(ctx.results)
                ctx.compare("%s.%s" % (lib, oid), "spec.ffts.run_" + name, a, b, ("ret", "exc"))
                if any(r.status != "ok" for r in ctx.results[k0:]): return
                calls = [e for e in a.I.events if e.kind == "fft"]
                if not calls: return ctx.und("%s.%s.library" % (lib, oid), "no transform found")
                wrong = [e for e in calls if not T.pyval(e.data[0]).startswith(OWNER[lib])]
                if wrong: ctx.bad("%s.%s.library" % (lib, oid), "with %s selected the transform is computed by %s" % (lib, T.pyval(wrong[0].data[0])), wrong[0].where)
                else: ctx.ok("%s.%s.library" % (lib, oid))
                ins = {I for I in a.watch.values()}
                for e in calls:
                    tgt = e.data[3]
                    while tgt.op == "view": tgt = tgt.args[0]
                    o = e.data[2]
                    if tgt in ins and o is not FALSE and o is not over and not (o.op == "num" and T.pyval(o) == 0):
                        return ctx.bad("%s.%s.overwrite" % (lib, oid), "%s may overwrite the frame of the caller (overwrite_x=%s)" % (T.pyval(e.data[0]), T.show(o)), e.where)
                ctx.ok("%s.%s.overwrite" % (lib, oid))
                if cdtype:
                    es = [x for m in elems(a) for x in m]
                    C = T.sym("cddm.conf.CDTYPE", "any", True)
                    ds = [a.I.dtype_of(x) if x.op in ("ref", "view") else None for x in es]
                    if all(d is C for d in ds): ctx.ok("%s.%s.dtype" % (lib, oid))
                    elif any(d is None for d in ds) and not any(e.kind == "cast" for e in a.I.events): ctx.bad("%s.%s.dtype" % (lib, oid), "the transform is not returned in the configured complex type", where(a))
                    elif any(d is None for d in ds): ctx.und("%s.%s.dtype" % (lib, oid), "data type of the result")
                    else: ctx.bad("%s.%s.dtype" % (lib, oid), "the transform is returned as %s instead of the configured complex type" % [T.show(d) for d in ds if d is not C][0], where(a))
            ctx.guard("%s.%s" % (lib, oid), go)
        ov = scalar("overwrite_x", "bool")
        OV = T.sym("overwrite_x", "bool", True)
        shp = Par("extra", lambda I, lib=lib: mkdict(I, "shape" if lib == "scipy" else "s", T.tup(T.sym("sy", "int", True), T.sym("sx", "int", True))))
        opt = Par("extra", lambda I: mkdict(I, "norm", T.sym("norm", "any", True)))
        for w, e in (("", None), (".shape", shp), (".option", opt)):
            p = [X(), ov] + ([e] if e else [])
            decide("rfft2_video" + w, "rfft2_video" + ("_extra" if e else ""), p, OV, True)
            decide("fft2_video" + w, "fft2_video" + ("_extra" if e else ""), p, OV)
            decide("rfft2_video.default" + w, "rfft2_video_default" + ("_extra" if e else ""), [p[0]] + p[2:], None, True)
            decide("fft2_video.default" + w, "fft2_video_default" + ("_extra" if e else ""), [p[0]] + p[2:], None)
        for nm in ("dls", "dls_video"):
            decide(nm, nm, [X() if nm == "dls_video" else arr("x", "real", ("h", "w"), True), arr("window", "real", ("h", "w"), True), tupp("kvec", scalar("ki", "int"), scalar("kj", "int"))])
    # FFT correlation functions: the same normal form whatever the backend
    for fn in LC.FFT:
        for timed in (False, True):
            if fn.startswith(("cross_count", "auto_count")): continue
            c = LC.Cfg(fn, 2, 0, timed=timed)
            for lib in BACKENDS[1:]:
                def go(c=c, lib=lib):
                    base = [T.sub(num(1), T.sym("n", "int", True))] + [T.sub(num(1), T.sym("dim_" + x, "int", True)) for x in LC.NAMES]
                    A = [ctx.run(LC.CORE + c.fn, c.params(), conf={"fftlib": l, "rfft2lib": l}, hooks=H, facts=base, assume={"contiguous": True}) for l in (lib, "numpy")]
                    k0 = len(ctx.results)
                    ctx.compare("%s.%s" % (lib, c.oid()), LC.CORE + c.fn, A[0], A[1], ("ret", "exc"))
                    if any(r.status != "ok" for r in ctx.results[k0:]): return
                    wrong = [e for e in A[0].I.events if e.kind == "fft" and not T.pyval(e.data[0]).startswith(OWNER[lib])]
                    if wrong: ctx.bad("%s.%s.library" % (lib, c.oid()), "with %s selected the transform is computed by %s" % (lib, T.pyval(wrong[0].data[0])), wrong[0].where)
                ctx.guard("%s.%s" % (lib, c.oid()), go)

def mkdict(I, k, v):
    oid = I.new("d"); I.set((oid, "items"), T.tup(T.tup(const(k), v)))
    return T._mk("dict", (oid,), "any", False)
