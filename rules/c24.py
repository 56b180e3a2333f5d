"""C24: the arrays (or memory maps) returned by the loading functions are, element by element, the frames of the
video (frame i of camera c at index i of array c) with the length, frame shape and data type of the video, for
lists, tuples, arrays of any length and one-pass streams; without a length a ValueError is raised; a loaded
video iterated again is the stream that was loaded; the memory maps are new files, one for each camera."""
from cddmlint.harness import *
from .c23 import video, TICK, where

def aslist(name, n, cams):
    v = video(name, n, cams)
    return tupp(name, *[tupp("m%d" % k, *[arr("%s%d%s" % (name, k, "abc"[c]), "real", ("h", "w"), True) for c in range(cams)]) for k in range(n)])

def run(ctx):
    pos = lambda I: [T.sub(num(1), T.sym("dim_" + d, "int", True)) for d in ("n", "h", "w")]
    def decide(oid, name, ref, params, n, cams, arrays=True, mm=None):
        root = "spec.loading.run_" + name
        def go():
            a = ctx.run(root, params, opaque=TICK, facts=pos)
            b = ctx.run("spec.loading.ref_" + ref, params, opaque=TICK, facts=pos)
            k0 = len(ctx.results)
            sh = (n, T.sym("dim_h", "int", True), T.sym("dim_w", "int", True))
            ctx.compare(oid, root, a, b, ("ret", "out", "exc"), None, True)
            if a.dead or any(r.status != "ok" for r in ctx.results[k0:]) or not arrays: return
            outs = a.I.seqval(a.raw).args
            for c, x in enumerate(outs):
                sx = a.I.shape_of(x)
                if sx.op != "tup": return ctx.und(oid + ".shape", "shape of the array")
                if T.freeze(sx) is not T.tup(*sh) if hasattr(T, "freeze") else a.I.freeze(sx) is not T.tup(*sh): return ctx.bad(oid + ".shape", "array of camera %d has shape %s instead of %s" % (c, T.show(sx), T.show(T.tup(*sh))), where(a))
                dt = a.I.dtype_of(x)
                src = [v for k, v in a.watch.items() if k == "x" or k.endswith("abc"[c])]
                want = {a.I.dtype_of(v) for v in src}
                if dt not in want:
                    if dt is None or dt.op not in ("sym", "dtype", "builtin", "ext"): return ctx.und(oid + ".dtype", "data type of the array")
                    return ctx.bad(oid + ".dtype", "array of camera %d has data type %s instead of that of the frames" % (c, T.show(dt)), where(a))
            ctx.ok(oid + ".layout")
            if mm:
                calls = [e for e in a.I.events if e.kind == "call" and T.show(e.data[0]).endswith("open_memmap)")]
                if len(calls) != cams: return ctx.und(oid + ".files", "memory maps are not created by open_memmap")
                names = []
                for e in calls:
                    pos_, kws = e.data[1].args, {T.pyval(x.args[0]): x.args[1] for x in e.data[2].args}
                    nm = pos_[0] if pos_ else kws.get("filename")
                    mode = pos_[1] if len(pos_) > 1 else kws.get("mode", const("r+"))
                    if a.I.plain(nm) is ...: return ctx.und(oid + ".files", "name of the file")
                    names.append(a.I.plain(nm))
                    if mode is not const("w+"): return ctx.bad(oid + ".files", "memory map is opened with mode %s; a new file is needed" % T.show(mode), e.where)
                if len(set(names)) != cams: return ctx.bad(oid + ".files", "cameras share the file %s" % names[0], calls[0].where)
                if any(not x.startswith("base") for x in names): return ctx.bad(oid + ".files", "file %s does not use the given name" % names[0], calls[0].where)
                if names != ["base_%d.npy" % c for c in range(cams)]: return ctx.bad(oid + ".files", "files are %s instead of base_0.npy, ..." % names, calls[0].where)
                ctx.ok(oid + ".files")
        ctx.guard(oid, go)
    N = T.sym("dim_n", "int", True)
    for cams in (1, 2):
        X, XT = video("x", 3, cams), aslist("x", 3, cams)
        XL = arr("x", "real", ("n", cams, "h", "w"), True)
        for mm, pre in ((None, "asarrays"), ("m", "asmemmaps")):
            p0 = [val("name", "base")] if mm else []
            o = "%s.%dcam." % (pre, cams)
            decide(o + "list", pre, pre, p0 + [X], num(3), cams, True, mm)
            decide(o + "tuple", pre, pre, p0 + [XT], num(3), cams, True, mm)
            decide(o + "list.count", pre + "_count", pre + "_count", p0 + [X, val("count", 3)], num(3), cams, True, mm)
            decide(o + "stream", pre + "_stream", pre + "_count", p0 + [X, val("count", 3)], num(3), cams, True, mm)
            decide(o + "one", pre + "_stream", pre + "_count", p0 + [video("x", 1, cams), val("count", 1)], num(1), cams, True, mm)
            decide(o + "any_length", pre, pre, p0 + [XL], N, cams, True, mm)
            decide(o + "nocount", pre + "_nocount", "nocount" + ("_memmap" if mm else ""), p0 + [X], None, cams, False)
        decide("load.%dcam.list" % cams, "load", "load", [X], None, cams, False)
        decide("load.%dcam.stream" % cams, "load_stream", "load_stream", [X, val("count", 3)], None, cams, False)
        decide("load.%dcam.nocount" % cams, "load_nocount", "nocount", [X], None, cams, False)
