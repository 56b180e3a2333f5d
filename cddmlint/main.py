import os, sys, json, time, importlib, traceback
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from . import harness

def load_known():
    p = os.path.join(harness.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(dict(x.split("=", 1) for x in l[8:].split()[:2]) | {"text": l})
    return out

def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in argv
    t0 = time.time()
    mod = importlib.import_module("rules." + prop.lower())
    ctx = harness.Ctx(prop, tier)
    def go():
        try: mod.run(ctx)
        except Exception as e:
            if os.environ.get("CDDMLINT_DEBUG"): raise
            traceback.print_exc()
            ctx.und("rule", "the rule stopped: %s: %s" % (type(e).__name__, str(e)[:200]))
    t = threading.Thread(target=go, daemon=True); t.start(); t.join(LIMIT * (15 if tier == "thorough" else 1))
    if t.is_alive(): ctx.und("rule", "the analysis was stopped after %d s; what was decided until then is reported" % (time.time() - t0))
    rc = report(prop, tier, verbose, mod, ctx, t0)
    sys.stdout.flush()
    if t.is_alive(): os._exit(rc)
    return rc

LIMIT = 720     # seconds

def report(prop, tier, verbose, mod, ctx, t0):
    known = [k for k in load_known() if k.get("property") == prop]
    bad = [r for r in ctx.results if r.status == "violation"]
    und = [r for r in ctx.results if r.status == "undecided"]
    mis = [r for r in ctx.results if r.status == "missing"]
    ok = [r for r in ctx.results if r.status == "ok"]
    rc = 0
    rd = os.path.join(harness.VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    new = []
    for r in bad:
        k = [k for k in known if k.get("obligation") == r.oid]
        if k: print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["text"])); continue
        new.append(r)
    if new:
        rp = os.path.join(rd, prop + ".txt")
        with open(rp, "w") as f:
            for r in new: f.write("obligation %s\n  at %s\n  %s\n\n" % (r.oid, r.where, r.detail))
        for r in new[:5]: print("%s: %s at %s: %s" % (prop, r.oid, r.where, r.detail[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    else:
        n = len(ctx.results)
        if n == 0 or len(ok) + len(bad) == 0:
            print("%s: only %d of %d obligations could be decided" % (prop, len(ok), n))
    for r in und + mis:
        if verbose: print("  %s %s: %s" % (r.status, r.oid, r.detail))
    cov = {"explanation": (mod.__doc__ or "").strip() + "  Deciding rule: the value-numbered normal form (gated terms, loops closed) of the analysed root equals the normal form of its reference definition, or the stated structural rule holds on every path; undecided obligations are listed and not counted as discharged.",
           "obligations": len(ctx.results), "discharged": len(ok), "undecided": [{"obligation": r.oid, "why": r.detail} for r in und + mis],
           "known_findings": len(bad) - len(new), "functions_analysed": sorted(ctx.functions), "roots_evaluated": ctx.cases,
           "statements_evaluated": ctx.stmts, "sites_recorded": ctx.sites, "samples": ctx.samples,
           "obligation_ids": [r.oid for r in ok]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": ["floating point arithmetic is treated as exact real/complex arithmetic", "numpy, numba and FFT libraries behave as documented"],
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(harness.VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (prop, len(ctx.results), len(ok), len(und) + len(mis), len(new), time.time() - t0))
    return rc
