"""C20: return value, raised errors and the configuration after (and at a failure of) every setter
equal the reference setter, for every name a backend can have and for unknown ones, whatever is
installed; thread limits of the libraries are set before they are recorded; the hardware dependent
call made while importing is protected."""
import ast
from cddmlint.harness import *

CHK = ("ret", "exc", "state")
def run(ctx):
    nc = {k: ... for k in ctx.conf}
    def eq(oid, fn, p): ctx.equal(oid, "cddm.conf." + fn, "spec.confspec." + fn, p, check=CHK, conf=nc)
    for fn, names in (("set_fftlib", ("numpy", "numpy.fft", "scipy", "scipy.fftpack", "mkl_fft", "pyfftw", "unknown", "mkl", "")), ("set_showlib", ("matplotlib", "cv2", "pyqtgraph", "unknown", "numpy", ""))):
        for n in names:
            eq("%s.%s" % (fn, n or "empty"), fn, [val("name", n)])
            if fn == "set_fftlib": eq("set_rfft2lib.%s" % (n or "empty"), "set_rfft2lib", [val("name", n)])
    for n in (-5, 0, 1, 2, 3): eq("set_verbose.%d" % n, "set_verbose", [val("level", n)])
    eq("set_verbose.any", "set_verbose", [scalar("level", "int")])
    for n in (-1, 0, 1, 4): eq("set_fft_threads.%d" % n, "set_fft_threads", [val("n", n)])
    eq("set_fft_threads.any", "set_fft_threads", [scalar("n", "int")])

    def threads():
        a = ctx.run("cddm.conf.set_numba_threads", [scalar("n", "int")], conf=nc)
        from cddmlint.interp import CONF
        v = a.state.get("numba_threads")
        n = T.sym("n", "int", True)
        calls = [e for e in a.I.events if e.kind == "call" and T.show(e.data[0]).endswith("numba.set_num_threads)")]
        sets = [e for e in a.I.events if e.kind == "setattr" and e.data[0] is CONF]
        if a.ret is not T.sym("conf.numba_threads", "any", True): return ctx.bad("set_numba_threads.returns", "set_numba_threads returns %s, not the number of threads in force before" % T.show(a.ret))
        ctx.ok("set_numba_threads.returns")
        if not calls or calls[0].data[1] is not T.tup(n) or calls[0].guard is not TRUE: return ctx.bad("set_numba_threads.applied", "numba.set_num_threads is not called with the requested number of threads")
        if not sets or v is None: return ctx.bad("set_numba_threads.recorded", "the number of threads is not recorded")
        if a.I.events.index(sets[0]) < a.I.events.index(calls[0]): return ctx.bad("set_numba_threads.order", "the number of threads is recorded before numba has accepted it", sets[0].where)
        ctx.ok("set_numba_threads.order")
        allowed = {n, T.fun("int", n, kind="int"), "int(pycall(ext(numba.get_num_threads), (), ()))", "pycall(ext(numba.get_num_threads), (), ())"}
        if v in allowed or T.show(v) in allowed: ctx.ok("set_numba_threads.recorded")
        elif any(x in T.show(v) for x in ("pycall", "np.")): ctx.und("set_numba_threads.recorded", T.show(v))
        else: ctx.bad("set_numba_threads.recorded", "recorded number of threads is %s" % T.show(v), sets[-1].where)
    ctx.guard("set_numba_threads", threads)

    def importing():
        m = ctx.P.mods["cddm.conf"]
        n = 0
        def visit(stmts, prot):
            nonlocal n
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)): continue
                if isinstance(st, ast.Try):
                    names = set()
                    for h in st.handlers:
                        names |= {"*"} if h.type is None else {getattr(x, "id", getattr(x, "attr", "?")) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                    visit(st.body, prot | names)
                    for h in st.handlers: visit(h.body, prot)
                    visit(st.orelse, prot); visit(st.finalbody, prot); continue
                for c in ast.walk(st):
                    if isinstance(c, ast.Call) and getattr(c.func, "id", None) == "set_numba_threads":
                        simple = c.args and isinstance(c.args[0], ast.Call) and getattr(c.args[0].func, "attr", "") == "get_num_threads"
                        n += 1
                        if not simple and not prot & {"ValueError", "Exception", "*", "BaseException"}:
                            return ctx.bad("import.numba_threads", "importing fails when the number of cores exceeds the limit of numba: set_numba_threads is called without handling ValueError", "%s:%d" % (m.path, c.lineno))
                for f in ("body", "orelse"):
                    if isinstance(st, (ast.If, ast.With, ast.For, ast.While)) and False: visit(getattr(st, f, []), prot)
        visit(m.tree.body, set())
        if n and not any(r.oid == "import.numba_threads" for r in ctx.results): ctx.ok("import.numba_threads")
    ctx.guard("import.numba_threads", importing)
