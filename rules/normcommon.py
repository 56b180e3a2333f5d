from cddmlint.harness import *

def corrdata(cplx, norm, auto=False, shape=("i", "j", "n")):
    k = "cplx" if cplx else "real"
    st, su = (norm & 3) in (2, 3), bool(norm & 12)
    return tupp("data", arr("corr", k, shape), arr("count", "int", ("n",)),
                arr("sq", "real", shape) if st else val("sq", None),
                arr("m1", "cplx", shape) if su else val("m1", None),
                arr("m2", "cplx", shape) if su and not auto else val("m2", None))

def diffdata(norm, shape=("i", "j", "n")):
    return tupp("data", arr("diff", "real", shape), arr("count", "int", ("n",)),
                arr("m1", "cplx", shape) if norm == 6 else val("m1", None), arr("m2", "cplx", shape) if norm == 6 else val("m2", None))

def background(shape=("i", "j")): return tupp("background", arr("bg1", "cplx", shape), arr("bg2", "cplx", shape))
def variance(shape=("i", "j")): return tupp("variance", arr("v1", "real", shape), arr("v2", "real", shape))
def mask(on): return arr("mask", "bool", ("i", "j")) if on else val("mask", None)

def infinite(I, t):
    """any value with an infinite part is 'infinite'"""
    inf = T._mk("special", ("inf",), "real", True)
    def f(x):
        if x.op == "tup": return T.tup(*[infinite(I, y) for y in x.args])
        if T.isnumeric(x) and any(a is inf for m, c in T.to_poly(x).items() for a, e in m): return inf
        return x
    return T.lift(f, t)

def name(*p): return ".".join(str(x) for x in p)
def cx(c): return "complex" if c else "real"
