"""C32: filters and interpolations of concrete short lengths, unrolled: every element of the output, fresh or supplied,
equals the definition of the filter in terms of the elements of the input only (what the output buffer contained is a separate
symbol that must not appear); complex data equals the filtered real part plus i times the filtered imaginary part; denoise is
the given number of median and convolution steps.  Minima, maxima and comparisons of data values are decided by cases."""
from cddmlint.harness import *
from cddmlint.point import Pt

KERNELS = ("convolve", "_median", "_median_slow", "decreasing", "increasing", "interpolate", "_log_interpolate")

def run(ctx):
    inl = kernels(ctx)
    deep = ctx.tier == "thorough"
    opt = dict(check=("ret", "out", "raises"), point=True, peel=True, inline=inl)
    for fn in ("median", "convolve", "decreasing", "increasing"):
        for n in (3, 4, 5, 6) if deep else (3, 4):
            for out in (False, True):
                p = [arr("x", "real", (n,))]
                if out: p.append(arr("out", "real", (n,), True))
                ctx.equal("%s.%d.%s" % (fn, n, "out" if out else "new"), "cddm.avg." + fn, "spec.filters." + fn, p, **opt)
    for out in (False, True):
        p = [arr("x", "cplx", (4,))]
        if out: p.append(arr("out", "cplx", (4,), True))
        ctx.equal("median.complex.%s" % ("out" if out else "new"), "cddm.avg.median", "spec.filters.parts", p, **opt)
    for fn, axis in (("interpolate", "real"), ("log_interpolate", "int")):
        for m in (2, 3):
            for kind in ("real", "cplx"):
                for out in (False, True):
                    p = [arr("xn", axis, (2,)), arr("x", axis, (m,)), arr("y", kind, (m,))]
                    if out: p.append(arr("out", kind, (2,), True))
                    ctx.equal("%s.%d.%s.%s" % (fn, m, kind, "out" if out else "new"), "cddm.avg." + fn, "spec.filters.%s%d" % (fn, m), p, facts=rising if axis == "int" else None, **opt)
    for p in ([arr("x", "real", ("k", 4))], [arr("x", "real", ("k", 4)), val("n", num(1))], [arr("x", "real", ("k", 4)), val("n", num(5))], [arr("x", "real", ("k", 4)), val("n", num(0))]):
        ctx.equal("denoise.%s" % ("default" if len(p) == 1 else T.show(p[1].build(None))), "cddm.avg.denoise", "spec.filters.denoise", p, check=("ret", "raises"), opaque={"cddm.avg.median", "cddm.avg.convolve", "cddm._core_nb.median", "cddm._core_nb.convolve"})

def kernels(ctx):
    """every guvectorized function of the kernel module"""
    return ["cddm._core_nb." + k for k in KERNELS]

def rising(I):
    """the abscissa is a rising sequence of integers"""
    el = lambda k: Pt(I, []).el(T.sym("x", "int", False), (num(k),))
    return [T.add(T.sub(el(k), el(k + 1)), num(1)) for k in (0, 1)]
