"""C31: the element of every window at pixel (i, j) is, as a gated expression in the indices and the
frame size, its defining formula of the elliptic radius, zero from radius one on, with and without
a caller-supplied output array (which is the array returned)."""
from cddmlint.harness import *

def run(ctx):
    shape = tupp("shape", scalar("ny", "int"), scalar("nx", "int"))
    pos = lambda I: [T.sub(num(1), T.sym(k, "int", True)) for k in ("ny", "nx")]
    for fn, extra in (("blackman", []), ("hann", []), ("tukey", [scalar("alpha", "real")]), ("gaussian", [scalar("sigma", "real")])):
        for out in (False, True):
            p = [shape] + extra
            if out: p.append(arr("out", "real", (T.sym("ny", "int", True), T.sym("nx", "int", True)), True, True))
            ctx.equal("%s.%s" % (fn, "out" if out else "new"), "cddm.window." + fn, "spec.windows." + fn, p, check=("ret", "out", "raises"), facts=pos, point=True)
            if out:
                def same(fn=fn, p=p):
                    a = ctx.run("cddm.window." + fn, p, facts=pos)
                    s = a.raw
                    # the returned object is the array that was supplied
                    refs = [e for e in a.out]
                    if a.ret is a.out["out"]: ctx.ok("%s.returned" % fn)
                    else: ctx.bad("%s.returned" % fn, "the value returned by %s is not the content of the supplied output array" % fn)
                ctx.guard("%s.returned" % fn, same)
