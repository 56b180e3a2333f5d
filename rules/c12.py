"""C12: a level of multi-tau is the mean, the first or one chosen of consecutive pairs of frames of the previous level, the same
for both cameras and their squares, in memory and iteratively, for every requested level."""
from cddmlint.harness import *
from .multicommon import *

M, S = "cddm.multitau.", "spec.binning.ref_"

def draws(seq):
    """random numbers of a run"""
    it = iter(itertools.cycle(seq))
    return {"numpy.random." + f: (lambda I, name, args, kwargs: num(Fraction(next(it), 10))) for f in ("rand", "random", "random_sample", "uniform")}

PATTERNS = ([2], [8], [2, 9], [7, 6, 1, 3, 8, 4, 0, 9, 2, 2, 7], [1, 8, 7, 3, 3, 9])

def functions(ctx):
    for name, ref in (("mean_data_parallel", "mean"), ("mean_data_cpu", "mean"), ("slice_data", "first"), ("choose_data", None)):
        for ax in (0, 1, 2, -1, -2):
            for out in (None, -1, -2, 0):
                k = ax % 3
                size = T.mul(num(2), D("n")) if ref == "first" else D("n")
                fs = tuple(size if i == k else "hw"[i - (i > k)] for i in range(3))
                ps = [arr("data", "cplx", fs, True), val("axis", ax), val("out_axis", out)]
                oid = "%s.%d.%s" % (name, ax, out)
                facts = lambda I: [T.sub(num(2), D("n")), T.sub(num(1), D("h")), T.sub(num(1), D("w"))]
                opt = dict(check=("ret", "out", "raises"), facts=facts, point=True, peel=True)
                if ref: ctx.equal(oid, M + name, S + ref, ps + [kw(scalar("r", "real"))], **opt)
                else:
                    either(ctx, oid + ".low", M + name, ps + [kw(val("r", num(Fraction(1, 5))))], opt)
                    either(ctx, oid + ".high", M + name, ps + [kw(val("r", num(Fraction(4, 5))))], opt)
                    either(ctx, oid + ".draw", M + name, ps, dict(opt, hooks=draws([3])))
    for name, ref in (("mean_data_parallel", "mean"), ("mean_data_cpu", "mean"), ("slice_data", "first")):
        ctx.equal(name + ".default", M + name, S + ref, [arr("data", "cplx", (6, "h"))], check=("ret", "raises"), point=True, peel=True)

def either(ctx, oid, fn, ps, opt):
    """the first or the second frames"""
    runs = []
    for ref in ("first", "second"):
        p = Ctx(ctx.prop, ctx.tier)
        p.equal(oid, fn, S + ref, ps, **opt)
        runs.append(p)
        ctx.functions |= p.functions
    st = [[r.status for r in p.results] for p in runs]
    good = [p for p, s in zip(runs, st) if all(x == "ok" for x in s)]
    ctx.results.extend((good or [p for p, s in zip(runs, st) if "violation" not in s] or runs)[0].results)
    return [bool(p in good) for p in runs]

class Selection:
    """which frames make up each level of a run with random binning"""
    def __init__(s, ctx, oid, P, levels, cross, frames, squares):
        s.ctx, s.oid, s.P, s.cross, s.frames, s.squares = ctx, oid, P, cross, frames, squares
        s.names = {"C%d" % n: k for k, n in P.names.items()}
        s.levels = levels

    def camera(s, e):
        """which camera a row is a frame of, if it is"""
        if e.op != "el" or e.args[0].op != "sym": return None
        nm = e.args[0].args[0]
        if nm in ("f1", "f2"): return "ab"[nm == "f2"]
        return nm[0] if nm[:1] in ("a", "b") and nm[1:].isdigit() else None

    def frame(s, e, cam):
        """index of the frame a row consists of"""
        if s.camera(e) is None: return None
        if s.camera(e) != cam: return "camera %s" % s.camera(e)
        b, ix = e.args
        return int(b.args[0][1:]) if b.args[0][1:].isdigit() and b.args[0] not in ("f1", "f2") else T.pyval(ix[0])

    def decide(s):
        prev = None
        for j, labels in enumerate(s.levels):
            sel = {}
            for lab in sorted(labels):
                c = s.P.bylabel[lab]
                kind, r1, r2, s1, s2, n, where = c
                if s.cross and r1 and r2 and s.camera(r1[0]) == "b" and s.camera(r2[0]) == "a": r1, r2, s1, s2 = r2, r1, s2, s1
                for cam, rows, sqs in (("a", r1, s1), ("b" if s.cross else "a", r2, s2)):
                    for k, r in enumerate(rows or ()):
                        f = s.frame(r, cam)
                        if f is None: return s.ctx.bad(s.oid, "a row of level %d is not one of the frames of camera %s: %s" % (j, cam, T.show(r)[:200]), where)
                        if isinstance(f, str): return s.ctx.bad(s.oid, "level %d of camera %s contains a frame of %s" % (j, cam, f), where)
                        if sel.setdefault(f >> j, f) != f: return s.ctx.bad(s.oid, "level %d: frame %d of camera %s is used where elsewhere frame %d was chosen of the same pair" % (j, f, cam, sel[f >> j]), where)
                        if sqs is not None and sqs[k] is not T.mul(r, T.conj(r)): return s.ctx.bad(s.oid, "level %d: squared signal %s goes with frame %d of camera %s" % (j, T.show(sqs[k])[:200], f, cam), where)
                    if rows and [s.frame(r, cam) >> j for r in rows] != list(range(s.frame(rows[0], cam) >> j, (s.frame(rows[0], cam) >> j) + len(rows))):
                        return s.ctx.bad(s.oid, "level %d does not consist of one frame of each pair in order: %s" % (j, [s.frame(r, cam) for r in rows]), where)
                    if rows and s.squares and sqs is None: return s.ctx.bad(s.oid, "level %d: squared signals are not supplied" % j, where)
            if set(sel) != set(range(s.frames >> j)): return s.ctx.bad(s.oid, "level %d is made of positions %s of %d" % (j, sorted(sel), s.frames >> j))
            if prev is not None:
                for m, f in sel.items():
                    if f not in (prev[2 * m], prev[2 * m + 1]): return s.ctx.bad(s.oid, "level %d: frame %d is not one of the pair (%d, %d) of the previous level" % (j, f, prev[2 * m], prev[2 * m + 1]))
            prev = sel
        s.ctx.ok(s.oid, facts={"levels": len(s.levels)})
        return True

def labels(t):
    """names of contributions in a value"""
    return {x.args[0].split(" of ")[1] for x in T.walk(t) if x.op == "sym" and isinstance(x.args[0], str) and " of C" in x.args[0]}

def chosen(ctx, oid, runner, frames, nlevels, cross, squares=True, memory_=False):
    """random binning under several sequences of random numbers"""
    def go():
        picks = []
        for i, seq in enumerate(PATTERNS):
            probe = Ctx(ctx.prop, ctx.tier)
            P, a = runner(probe, draws(seq))
            if a is None: return ctx.und(oid, "run with random binning not evaluated: %s" % [r.detail for r in probe.results][:1])
            if a.dead: return ctx.bad(oid, "random binning is refused")
            ctx.functions |= probe.functions
            res = a.ret if memory_ else a.ret.args[0]
            fast, slow = res.args[0], res.args[1]
            lv = [labels(T.tup(fast.args[0]))] + [labels(T.tup(x.args[0])) for x in slow.args]
            if len(lv) != nlevels + 1: return ctx.bad(oid, "%d levels instead of %d" % (len(lv), nlevels + 1))
            if not all(lv): return ctx.bad(oid, "level %d has no contributions" % [bool(x) for x in lv].index(False))
            if Selection(ctx, oid + ".%d" % i, P, lv, cross, frames, squares).decide() is not True: return
            picks.append(tuple(tuple(tuple(c[1] or ()) for c in (P.bylabel[x] for x in sorted(l))) for l in lv))
        if len(set(picks)) < 2: return ctx.bad(oid, "random binning does not depend on random numbers")
        ctx.ok(oid)
    ctx.guard(oid, go)

def run(ctx):
    functions(ctx)
    for cross in (True, False):
        c = "cross" if cross else "auto"
        for b in (0, 1, None):
            nb = c + ".%s" % {0: "first", 1: "mean", None: "default"}[b]
            for norm in (2, 6) if b is not None else (None,):
                multi(ctx, nb + ".iter%s" % (norm or ""), cross, 16, 4, 2, 3, mode="chunk", binning=b, norm=norm)
                memory(ctx, nb + ".memory%s" % (norm or ""), cross, (20, "h", "w"), 5, 2, binning=b, norm=norm)
        for b in (0, None):
            multi(ctx, c + ".diff.iter.%s" % b, cross, 16, 4, 2, 3, method="diff", binning=b)
            memory(ctx, c + ".diff.memory.%s" % b, cross, (20, "h", "w"), 5, 2, method="diff", binning=b)
        multi(ctx, c + ".levels.1", cross, 16, 4, 2, 1, nlevel=1)
        multi(ctx, c + ".levels.3", cross, 16, 4, 2, 3, nlevel=3)
        multi(ctx, c + ".levels.whole", cross, 16, 16, 2, 3)
        multi(ctx, c + ".levels.background", cross, 16, 4, 2, 3, background=True, mode="chunk")
        memory(ctx, c + ".levels.memory.1", cross, (20, "h", "w"), 5, 1, nlevel=1)
        memory(ctx, c + ".levels.memory.odd", cross, (23, "h", "w"), 5, 2, binning=1)
        for b in (False, True):
            assume = {"contiguous": b}
            memory(ctx, c + ".memory.last.%s" % b, cross, ("h", "w", 12), 5, 1, axis=2, assume=assume)
        memory(ctx, c + ".memory.middle", cross, ("h", 12, "w"), 5, 1, axis=1)
        chosen(ctx, c + ".choose.iter", lambda p, h, cross=cross: multi_run(p, cross, 16, 4, 2, 3, h, binning=2, norm=2), 16, 3, cross)
        chosen(ctx, c + ".choose.background", lambda p, h, cross=cross: multi_run(p, cross, 8, 2, 2, 2, h, binning=2, norm=2, mode="chunk"), 8, 2, cross)
        chosen(ctx, c + ".choose.memory", lambda p, h, cross=cross: memory_run(p, cross, (20, "h", "w"), 5, 2, h, binning=2, norm=2), 20, 2, cross, memory_=True)
        chosen(ctx, c + ".choose.diff", lambda p, h, cross=cross: multi_run(p, cross, 8, 2, 2, 2, h, binning=2, method="diff"), 8, 2, cross, False)
        for b in (1, True):
            refuse(ctx, c + ".refuse.iter.%s" % b, cross, "multi", b)
            refuse(ctx, c + ".refuse.memory.%s" % b, cross, "memory", b)

def refuse(ctx, oid, cross, which, b):
    """averaging frames is not accepted for differences"""
    def go():
        P, a = (multi_run(ctx, cross, 8, 2, 2, 2, {}, binning=b, method="diff") if which == "multi" else memory_run(ctx, cross, (20, "h", "w"), 5, 2, {}, binning=b, method="diff"))
        if a is None: return
        if not a.dead and a.pc is not FALSE: return ctx.bad(oid, "binning by averaging is accepted for difference analysis")
        if P.calls: return ctx.bad(oid, "difference analysis of averaged frames is computed before it is refused", P.calls[0][-1])
        ctx.ok(oid)
    ctx.guard(oid, go)
