"""C21: on every path through every public function, method and generator that can change the
verbosity level (directly or through the functions it calls) the level at a return, at an escaping
exception and at a yield is the level at entry; switching output off and on again restores any
level, also one of an outer silenced stage."""
from cddmlint.harness import *
from cddmlint.verbose import Analyzer, V, St, Frame, show
import ast

def run(ctx):
    A = Analyzer(ctx.P)
    for k, f in sorted(A.funcs.items(), key=lambda i: i[1].qual):
        if not A.own(f): continue
        ctx.functions.add(f.qual)
        def go(f=f):
            if A.decorated(f):
                A.exits(f)
                if A.loud: return ctx.bad("%s.restored" % f.qual, "%s switches the output of an outer silenced stage on again" % f.qual, "%s:%s" % (f.mod.path, A.loud[0][1]))
                return ctx.ok("%s.restored" % f.qual, facts={"by": "decorator"})
            # a decorator factory: its inner function is judged where it is applied
            if any(isinstance(x, ast.FunctionDef) for x in f.node.body) and f.mod.name.endswith("print_tools"): return
            if f.isgen and f.name.startswith("_"):
                # an internal generator may leave the restoring to the generators that consume it
                c = A.consumers(f)
                if c and all(A.decorated(g) for g in c): return ctx.ok("%s.restored" % f.qual, facts={"by": "consumers"})
            bad, n = A.exits(f)
            ctx.sites += n
            if bad:
                kind, line, v = bad[0]
                return ctx.bad("%s.restored" % f.qual, "%s %s with the verbosity level changed to %s (%d such paths)" % (f.qual, kind, show(v), len(bad)), "%s:%s" % (f.mod.path, line))
            ctx.ok("%s.restored" % f.qual)
        ctx.guard("%s.restored" % f.qual, go)

    def pair():
        m = ctx.P.mods["cddm.print_tools"]
        d, e = A.in_module(m, "disable_prints"), A.in_module(m, "enable_prints")
        if d is None or e is None: raise Missing("disable_prints")
        A.keepnum = True
        for lev, nm in ((V, "any"), (("num", 2), "two"), (("num", -2), "silenced"), (("num", 0), "zero")):
            outs, _ = A.run(d, {}, None, St(lev))
            for k, x, v in outs:
                if k != "return": continue
                if v != lev: return ctx.bad("silence.%s" % nm, "disable_prints returns %s instead of the level in force" % show(v), "%s:%s" % (m.path, d.node.lineno))
                if x.v[0] == "num" and x.v[1] > 0 : return ctx.bad("silence.%s" % nm, "disable_prints leaves the level at %s" % show(x.v), "%s:%s" % (m.path, d.node.lineno))
                p = e.node.args.args[0].arg
                o2, _ = A.run(e, {p: v}, None, St(x.v))
                for k2, y, v2 in o2:
                    if k2 == "return" and y.v != lev: return ctx.bad("silence.%s" % nm, "enable_prints with the level returned by disable_prints sets %s instead of that level" % show(y.v), "%s:%s" % (m.path, e.node.lineno))
            ctx.ok("silence.%s" % nm)
    ctx.guard("silence", pair)
