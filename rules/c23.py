"""C23: every frame-wise operation, driven by a marked source and read by a marked consumer, yields one
multi-frame per input multi-frame, in order and before the next input is requested, whose camera c is the
defined function of camera c of the inputs; in-place variants write that value into the supplied frames and
yield them, out-of-place variants write nothing of the caller's and return data of the requested type."""
from cddmlint.harness import *
from cddmlint.terms import ELLIPSIS

TICK = {"spec.streams.tick"}
DT = T.sym("dtype", "any", True)

def video(name, n, cams, kind="real", watch=True, count=None):
    return lst(name, *[tupp("m%d" % k, *[arr("%s%d%s" % (name, k, "abc"[c]), kind, ("h", "w"), watch) for c in range(cams if count is None else count[k])]) for k in range(n)])

def ticks(a):
    return [(T.pyval(e.data[1].args[0]), T.pyval(e.data[1].args[1])) for e in a.I.events if e.kind == "call" and T.show(e.data[0]) == "repofn(spec.streams.tick)"]

def stages(a, n, two=False):
    """None or the description of a deviation from: take one, deliver one"""
    seq = [t for t in ticks(a)]
    if seq[-1:] != [("end", n)]: 
        if seq and seq[-1][0] == "end": return "%d multi-frames are delivered for %d multi-frames of input" % (seq[-1][1], n)
        return "the stream does not end after %d multi-frames" % n
    pos = {t: i for i, t in enumerate(seq)}
    for k in range(n):
        for w in ("in", "in2") if two else ("in",):
            if (w, k) not in pos: return "multi-frame %d of the input is not used" % k
            if pos[w, k] > pos["out", k]: return "multi-frame %d is delivered before it is read" % k
            if k and pos[w, k] < pos["out", k - 1]: return "multi-frame %d of the input is requested before multi-frame %d is delivered" % (k, k - 1)
    return None

def elems(a):
    r = a.raw
    I = a.I
    out = []
    for m in I.seqval(r).args: out.append(list(I.seqval(m).args))
    return out

def run(ctx):
    n = 3
    def decide(oid, name, params, ref=None, two=False, inplace=False, dtype=None, frames=None, ks=None, lazy=True, facts=None):
        root, refn = "spec.videos.run_" + name, "spec.videos.ref_" + (ref or name)
        def go():
            a = ctx.run(root, params, opaque=TICK, facts=facts, hooks=HOOKS)
            b = ctx.run(refn, params, facts=facts, hooks=HOOKS)
            k0 = len(ctx.results)
            ctx.compare(oid, root, a, b, ("ret", "out", "exc"), None, True)
            if any(r.status != "ok" for r in ctx.results[k0:]) or a.dead: return
            if lazy:
                w = stages(a, n, two)
                if w: return ctx.bad(oid + ".stream", w, "%s" % where(a))
                ctx.ok(oid + ".stream")
            es = [x for m in elems(a) for x in m]
            if inplace:
                refs = [v for k, v in sorted(a.watch.items()) if not k.startswith("w")]
                bad = [x for x in es if x.op not in ("ref", "view")]
                if any(x.op == "ref" and x not in refs for x in es): return ctx.bad(oid + ".same", "in-place operation yields other arrays than those it modified", where(a))
                if not bad: ctx.ok(oid + ".same")
            elif dtype is not None:
                ds = [a.I.dtype_of(x) if x.op in ("ref", "view") else None for x in es]
                if all(d is DT for d in ds): ctx.ok(oid + ".dtype")
                elif any(d is None for d in ds) and len(set(ds)) == 1 and not any(e.kind == "cast" for e in a.I.events) and not any(DT in set(T.walk(x)) for x in es): ctx.bad(oid + ".dtype", "the requested data type is not applied", where(a))
                elif any(d is None for d in ds): ctx.und(oid + ".dtype", "data type of the result")
                else: ctx.bad(oid + ".dtype", "the result has data type %s instead of the requested one" % [T.show(d) for d in ds if d is not DT][0], where(a))
        ctx.guard(oid, go)
    X = lambda cams=2, kind="real": video("x", n, cams, kind)
    W = lambda cams=2, kind="real": video("w", n, cams, kind)
    h = lambda nm: T.sym(nm, "int", True)
    sl = lambda nm, lo, hi: val(nm, T.mkslice(lo, hi) if hasattr(T, "mkslice") else mkslice(lo, hi, NONE))
    from cddmlint.arrays import mkslice
    for cams in (1, 2):
        c = "%dcam." % cams
        decide(c + "crop", "crop", [X(cams), tupp("roi", val("r0", mkslice(num(2), num(9), NONE)), val("r1", mkslice(num(1), num(7), NONE)))])
        decide(c + "crop.pairs", "crop", [X(cams), tupp("roi", val("r0", T.tup(num(2), num(9))), val("r1", T.tup(num(1), num(7))))], ref="crop_pairs")
        decide(c + "crop.default", "crop_default", [X(cams)])
        decide(c + "mask", "mask", [X(cams), arr("mask", "bool", ("h", "w"), True)])
        for op in ("subtract", "add", "multiply"):
            decide(c + op, op, [X(cams), W(cams), val("inplace", False), scalar("dtype")], two=True, dtype=True)
            decide(c + op + ".inplace", op, [X(cams), W(cams), val("inplace", True), scalar("dtype")], two=True, inplace=True)
            decide(c + op + ".default", op + "_default", [X(cams), W(cams)], ref=op, two=True)
        for op in ("normalize_video", "normalize_fft"):
            decide(c + op, op, [X(cams), val("inplace", False), scalar("dtype")], dtype=True)
            decide(c + op + ".inplace", op, [X(cams), val("inplace", True), scalar("dtype")], inplace=True)
            decide(c + op + ".default", op + "_default", [X(cams)], ref=op)
        for op in ("rfft2_video", "fft2_video"):
            decide(c + op, op, [X(cams), val("kimax", NONE), val("kjmax", NONE)])
        decide(c + "play", "play", [X(cams), scalar("fps", "real")], ref="same")
        decide(c + "show_video", "show_video", [X(cams), val("id", 0)], ref="same")
        decide(c + "show_fft", "show_fft", [X(cams), val("id", 0)], ref="same")
    decide("show_video.second", "show_video", [X(2), val("id", 1)], ref="same")
    decide("show_diff", "show_diff", [X(2)], ref="same")
    decide("show_diff.normalized", "show_diff_normalized", [X(2)], ref="same")
    decide("show_diff.times", "show_diff_times", [X(2), tupp("dt", scalar("d0", "int"), scalar("d1", "int")), arr("t1", "int", (3,)), arr("t2", "int", (3,))], ref="same")
    decide("fromarrays", "fromarrays", [tupp("arrays", arr("a0", "real", (3, "h", "w"), True), arr("a1", "real", (3, "h", "w"), True))], lazy=False)
    for op in ("subtract", "add", "multiply"):
        for cnt in ((1, 2, 2), (2, 2, 3)):
            decide("%s.mismatch.%d%d%d" % ((op,) + cnt), op, [X(2), video("w", n, 2, count=cnt), val("inplace", False), val("dtype", NONE)])
            decide("%s.mismatch.inplace.%d%d%d" % ((op,) + cnt), op, [X(2), video("w", n, 2, count=cnt), val("inplace", True), val("dtype", NONE)])

    # any number of multi-frames
    XL, WL = arr("x", "real", ("n", 2, "h", "w"), True), arr("w", "real", ("n", 2, "h", "w"), True)
    opt = [val("inplace", False), scalar("dtype")]
    roi = tupp("roi", val("r0", mkslice(num(2), num(9), NONE)), val("r1", mkslice(num(1), num(7), NONE)))
    for op, p in (("crop", [XL, roi]), ("mask", [XL, arr("mask", "bool", ("h", "w"))]), ("subtract", [XL, WL] + opt), ("add", [XL, WL] + opt), ("multiply", [XL, WL] + opt), ("normalize_video", [XL] + opt),
                  ("normalize_fft", [XL] + opt), ("rfft2_video", [XL]), ("fft2_video", [XL]), ("play", [XL, scalar("fps", "real")])):
        ctx.equal(op + ".any_length", "spec.videos.long_" + op, "spec.videos.lref_" + op, p, check=("ret", "out", "exc"))

HOOKS = {}
def where(a):
    for e in reversed(a.I.events):
        if "/spec/" not in e.where: return e.where
    return "cddm/video.py"
