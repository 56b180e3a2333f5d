"""Obligations: analyse a root of the repository and a reference definition with the same
engine and compare the values, raised errors and written buffers they compute."""
import ast, os, sys, time, json
from . import terms as T
from . import lin
from .terms import Undecided, TRUE, FALSE, NONE, num, const
from .project import Project
from .evalx import Interp, State
from .interp import Dead

ROOT = os.environ.get("CDDM_REPO", "/repo")
VERIF = os.environ.get("CDDM_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# functions without alternative spelling in the vocabulary of the engine: two different
# normal forms over them are taken as different computations.
INERT = set("""mean nanmean median nanmedian sum nansum var std fft ifft fft2 ifft2 rfft2 fftn sort isnan conj abs log sqrt exp cos sin arctan2 round around rint min max floor ceil fftfreq
arange linspace fftshift convolve unique empty zeros argmin argmax minimum maximum rfftn_numpy rfft2 real imag hypot power interp""".split())
OPAQUE_OPS = {"rec", "slot", "pycall", "comp", "reduce", "exists", "firsti", "phi", "builtin", "stararg", "random", "wtrip", "ext", "repofn", "lens", "while", "getitem", "set", "sorted", "reshape", "where", "append", "popped", "inserted", "lastof", "seqadd", "starseq"}

def vocab(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, T.Term):
        for x in T.walk(t):
            if x.op == "np":
                acc.add("np:" + x.args[0])
            elif x.op == "fun": acc.add("fun:" + str(x.args[0]))
            elif x.op in ("ext", "builtin", "repofn"): acc.add("%s:%s" % (x.op, x.args[0]))
            elif x.op == "gu": acc.add("gu:%s" % T.pyval(x.args[0]))
            elif x.op == "lens": acc.add("lens:%s" % (x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]))
            else: acc.add(x.op)
    return acc

def risky(v):
    if v.startswith("np:"): return v[3:].split(".")[-1] not in INERT
    if v.startswith("fun:"): return v[4:].split(".")[-1] not in INERT and not v[4:].startswith("as_")
    if v.startswith(("ext:", "builtin:", "repofn:", "lens:")): return True
    if v.startswith("gu:"): return not v.startswith("gu:kernel:role:")
    return v in OPAQUE_OPS

class Result:
    def __init__(s, oid, status, detail="", where="", facts=None):
        s.oid, s.status, s.detail, s.where, s.facts = oid, status, detail, where, facts or {}

class Analysis:
    """result of analysing one root"""
    def __init__(s): s.ret = None; s.pc = FALSE; s.raises = []; s.out = {}; s.I = None; s.dead = False; s.state = {}; s.rstates = []

class Ctx:
    def confstate(s, I, st):
        from .interp import CONF
        return {k[1]: v for k, v in st.d.items() if k[0] is CONF and isinstance(v, T.Term)}
    def __init__(s, prop, tier="quick"):
        s.prop, s.tier = prop, tier
        s.results = []
        sp = os.path.join(VERIF, "spec")
        extra = [("spec." + f[:-3], os.path.join(sp, f)) for f in sorted(os.listdir(sp)) if f.endswith(".py") and f != "__init__.py"]
        s.P = Project(ROOT, "cddm", extra)
        s.functions = set(); s.stmts = 0; s.sites = 0; s.cases = 0
        s.conf = {"fftlib": const("numpy"), "rfft2lib": const("numpy"), "verbose": num(0), "showlib": const("matplotlib")}
        s.hooks = {}; s.opaque = set(); s.roles = None; s.samples = []
        s.assume = {}

    # ---------------------------------------------------------------- roots
    def interp(s, conf=None, hooks=None, opaque=None, assume=None):
        c = dict(s.conf)
        for k, v in (conf or {}).items():
            if v is ...: c.pop(k, None)
            else: c[k] = const(v)
        I = Interp(s.P, c)
        I.hooks = dict(s.hooks, **(hooks or {}))
        I.opaque = set(s.opaque) | set(opaque or ())
        I.roles = s.roles
        I.assumed = dict(s.assume); I.assumed.update(assume or {})
        I.st = State({}, TRUE); I.side = []
        return I

    def func(s, I, qual):
        """callable term for a dotted name of the repository or a spec module"""
        parts = qual.split(".")
        for k in range(len(parts) - 1, 0, -1):
            m = s.P.mods.get(".".join(parts[:k]))
            if m is None: continue
            v = I.module_name(m, parts[k])
            if v is None: raise Missing(qual)
            for p in parts[k + 1:]: v = I.getattr(v, p)
            return v
        raise Missing(qual)

    def run(s, qual, params, conf=None, hooks=None, opaque=None, assume=None, post=None, facts=None, peel=False, inline=()):
        T.reset_limit()
        I = s.interp(conf, hooks, opaque, assume)
        I.peel = peel
        I.inline = frozenset(inline)
        a = Analysis(); a.I = I
        args, kwargs = [], {}
        I.watch = a.watch = watch = {}
        for p in params:
            v = p.build(I)
            if p.kw: kwargs[p.name] = v
            else: args.append(v)
        if facts: I.rootfacts = list(facts(I) if callable(facts) else facts)
        f = s.func(I, qual)
        import ast as _a
        I.cur = _a.Pass(lineno=0)
        try:
            r = I.call(f, args, kwargs)
            a.ret = I.freeze(r); a.pc = I.st.pc
            a.raw = r
            for k, v in watch.items(): a.out[k] = I.freeze(v)
            a.state = s.confstate(I, I.st)
        except Dead:
            a.dead = True
        for k, st, v in I.side:
            if k == "raise": a.raises.append((st.pc, v)); a.rstates.append((st.pc, v, s.confstate(I, st)))
        s.functions |= {f.qual for f in I.visited if not f.mod.name.startswith("spec.")}
        s.stmts += I.nstmts; s.sites += len(I.events); s.cases += 1
        return a

    # ---------------------------------------------------------------- verdicts
    def ok(s, oid, **k): s.results.append(Result(oid, "ok", **k))
    def bad(s, oid, detail, where=""): s.results.append(Result(oid, "violation", detail, where))
    def und(s, oid, why): s.results.append(Result(oid, "undecided", why))
    def skip(s, oid, why): s.results.append(Result(oid, "missing", why))

    def guard(s, oid, fn):
        """run fn; undecided constructs make the obligation undecided, not violated"""
        try:
            return fn()
        except Undecided as e: s.und(oid, "undecided: %s" % e)
        except Missing as e: s.skip(oid, "anchor not found: %s" % e)
        except RecursionError: s.und(oid, "undecided: recursion limit")
        except Exception as e:
            if os.environ.get("CDDMLINT_DEBUG"): raise
            s.und(oid, "undecided: construct not handled (%s: %s)" % (type(e).__name__, str(e)[:200]))

    def equal(s, oid, lhs, rhs, params, check=("ret", "out"), **opt):
        """the root lhs computes what the reference rhs defines"""
        lopt = opt.pop("lopt", {}); ropt = opt.pop("ropt", {}); norm = opt.pop("norm", None); pt = opt.pop("point", False); sh = opt.pop("shape", None)
        rparams = opt.pop("rparams", params)
        def go():
            a = s.run(lhs, params, **dict(opt, **lopt))
            b = s.run(rhs, rparams, **dict(opt, **ropt))
            s.compare(oid, lhs, a, b, check, norm, pt, sh)
            if pt and opt.get("peel"): s.guard(oid + ".stores", lambda: s.fits(oid + ".stores", lhs, a))
        s.guard(oid, go)

    def fits(s, oid, lhs, a):
        """values assigned to parts of arrays have the size of the part"""
        from . import point
        n = 0; und = None
        for e in a.I.events:
            if e.kind != "store" or e.loops: continue
            v = point.misfit(a.I, e, list(a.I.rootfacts))
            if v.status == "differ": s.bad(oid, "%s: %s" % (lhs, v.detail), e.where); return
            if v.status == "undecided": und = und or "%s: %s" % (e.where, v.detail)
            if v.status == "equal": n += 1
        if und: s.und(oid, und)
        elif n: s.ok(oid, facts={"assignments": n})

    def compare(s, oid, lhs, a, b, check, norm=None, pt=False, shape=None):
        care = T.and_(a.pc, b.pc)
        probs = []
        if "raises" in check:
            ra, rb = raisecond(a), raisecond(b)
            if ra is not rb:
                v = s.condition(a.I, ra, rb, pt)
                if v is None: probs.append(("raises", ra, rb, TRUE))
                elif v.status == "undecided": s.und(oid, v.detail); return
                elif v.status == "differ": s.bad(oid, "%s %s" % (lhs, v.detail), locate(a.I, ra, lhs, s.P)); return
        elif a.dead != b.dead:
            probs.append(("raises", TRUE if a.dead else FALSE, TRUE if b.dead else FALSE, TRUE))
        if "exc" in check:
            ea, eb = excmap(a), excmap(b)
            for k in sorted(set(ea) | set(eb)):
                x, y = ea.get(k, FALSE), eb.get(k, FALSE)
                if x is not y: probs.append(("raises " + k, x, y, TRUE))
        if "state" in check:
            from .interp import CONF
            for pc, v, st in a.rstates:
                for k, x in sorted(st.items()):
                    y = a.I.unset_value((CONF, k))
                    x, y = T.restrict(x, pc), T.restrict(y, pc)
                    if pc is not FALSE and x is not y: probs.append(("configuration value %s when the call fails" % k, x, y, pc))
        if not a.dead and not b.dead and care is not FALSE:
            items = []
            if "ret" in check: items.append(("return value", a.ret, b.ret))
            if "out" in check:
                for k in sorted(set(a.out) & set(b.out)): items.append(("contents of %s" % k, a.out[k], b.out[k]))
            if "state" in check:
                from .interp import CONF
                for k in sorted(set(a.state) | set(b.state)):
                    items.append(("configuration value %s after the call" % k, a.state.get(k, a.I.unset_value((CONF, k))), b.state.get(k, b.I.unset_value((CONF, k)))))
            for nm, x, y in items:
                if norm: x, y = norm(a.I, x), norm(b.I, y)
                x, y = T.restrict(x, care), T.restrict(y, care)
                if x is y: continue
                v = s.pointwise(nm, a, x, b, y, care, pt, shape)
                if v is None or v.status == "other": probs.append((nm, x, y, care))
                elif v.status == "differ": s.bad(oid, "%s of %s differs from its definition: %s" % (nm, lhs, v.detail), locate(a.I, x, lhs, s.P)); return
                elif v.status == "undecided": s.und(oid, v.detail); return
        if not probs:
            s.ok(oid, facts={"vocab": len(vocab(a.ret)) if a.ret is not None else 0})
            if len(s.samples) < 3 and a.ret is not None: s.samples.append({"obligation": oid, "root": lhs, "normal_form": T.show(a.ret)[:300]})
            return
        for nm, x, y, care in probs:
            extra = {v for v in vocab(x) - vocab(y) if risky(v)}
            d = diff(x, y)
            if extra:
                s.und(oid, "%s uses constructs the reference does not contain: %s" % (nm, ", ".join(sorted(extra))[:200])); return
        nm, x, y, care = probs[0]
        pth, dx, dy = diff(x, y)
        where = locate(a.I, dx, lhs, s.P)
        s.bad(oid, "%s of %s differs from its definition%s\n      found:    %s\n      expected: %s" % (nm, lhs, pth, T.show(dx)[:1500], T.show(dy)[:1500]), where)

    def condition(s, I, x, y, pt):
        """verdict on two conditions for raising, under the facts of the root; None leaves it to the normal forms"""
        from . import point
        try:
            C = point.Cmp(I, list(I.rootfacts))
            d = C.differ(x, y)
            if d is None: return point.Verdict("equal")
            if not pt: return None
            w = C.witness(x, y, d[0])
        except (Undecided, RecursionError) as e: return point.Verdict("undecided", str(e)[:300]) if pt else None
        if w is None: return point.Verdict("undecided", "condition for raising not decided: %s / %s" % (T.show(d[1])[:200], T.show(d[2])[:200]))
        extra = {v for v in vocab(w[1]) - vocab(w[2]) if risky(v)}
        if extra: return point.Verdict("undecided", "condition for raising uses constructs the reference does not contain: %s" % ", ".join(sorted(extra))[:200])
        if w[1] is FALSE: return point.Verdict("differ", "does not raise for %s, it must%s" % (point.envtext(w[0]), "" if w[2] is TRUE else " when " + T.show(w[2])[:200]))
        if w[2] is FALSE: return point.Verdict("differ", "raises for %s, it must not%s" % (point.envtext(w[0]), "" if w[1] is TRUE else "; when " + T.show(w[1])[:200]))
        return point.Verdict("differ", "raises on other conditions for %s: %s instead of %s" % (point.envtext(w[0]), T.show(w[1])[:300], T.show(w[2])[:300]))

    def pointwise(s, nm, a, x, b, y, care, pt, shape=None):
        """verdict of the element-wise comparison; None leaves the decision to the normal forms"""
        from . import point
        t0 = time.time()
        if shape is None: shape = ("hint",) + tuple(shapehint(z.I, z.raw if nm == "return value" else z.watch.get(nm.replace("contents of ", ""))) for z in (a, b))
        try: v = point.compare_values(a.I, x, b.I, y, list(a.I.rootfacts), care, nm, shape)
        except (Undecided, RecursionError) as e: v = point.Verdict("undecided", str(e)[:300])
        except Exception as e:
            if os.environ.get("CDDMLINT_DEBUG") and pt: raise
            v = point.Verdict("undecided", "%s: %s" % (type(e).__name__, str(e)[:200]))
        if v.status == "differ" and v.terms:
            extra = {w for w in vocab(v.terms[0]) - vocab(v.terms[1]) if risky(w)}
            if extra: v = point.Verdict("undecided", "%s uses constructs the reference does not contain: %s" % (nm, ", ".join(sorted(extra))[:200]))
        if not pt and v.status != "equal": return None
        return v

class Missing(Exception): pass

def shapehint(I, v):
    """shapes of the arrays in a result value, as created"""
    if v is None: return None
    if v.op in ("tup", "list"):
        r = [shapehint(I, x) for x in I.seqval(v).args] if I.seqval(v).op == "tup" else None
        return r if r and any(x is not None for x in r) else None
    if v.op in ("ref", "view"):
        sh = I.shape_of(v)
        if sh.op == "tup": return tuple(sh.args)
    return None

def raisecond(a):
    r = FALSE
    for pc, v in a.raises: r = T.or_(r, pc)
    return r

def excmap(a):
    d = {}
    for pc, v in a.raises:
        k = v.args[1] if v.op == "const" else T.show(v)
        d[k] = T.or_(d.get(k, FALSE), pc)
    return d

def diff(x, y, depth=0):
    """smallest differing place: (path text, x', y')"""
    pth = ""
    while depth < 60:
        depth += 1
        if x.op == "tup" and y.op == "tup" and len(x.args) == len(y.args):
            for i, (p, q) in enumerate(zip(x.args, y.args)):
                if p is not q: break
            pth += " [item %d]" % i; x, y = p, q; continue
        v = T.top(x); w = T.top(y)
        if v is not None or w is not None:
            v = T._topof((x, y))
            hx, lx = T.cof(x, v, True), T.cof(x, v, False)
            hy, ly = T.cof(y, v, True), T.cof(y, v, False)
            if hx is not hy and (lx is ly or True and hx is not hy): pth += " [when %s]" % T.show(v)[:200]; x, y = hx, hy
            else: pth += " [when not %s]" % T.show(v)[:200]; x, y = lx, ly
            continue
        break
    return pth, x, y

def locate(I, t, lhs, P):
    subs = set(T.walk(t)) if isinstance(t, T.Term) else set()
    best = None
    for e in I.events:
        if e.kind in ("store", "gu", "vec", "call"):
            for d in e.data:
                if isinstance(d, T.Term) and d.op not in ("num", "const", "bool", "ref") and d in subs: best = e
    if best is not None and best.where and "spec/" not in best.where: return best.where
    for e in reversed(I.events):
        if not any(x in e.where for x in ("/spec/", "print_tools.py", "/conf.py")) and not e.where.startswith("?"): return e.where
    for f in I.visited:
        if not f.mod.name.startswith("spec."): return "%s:%s" % (f.mod.path, getattr(f.node, "lineno", "?"))
    return lhs

# ------------------------------------------------------------------ parameters
class Par:
    def __init__(s, name, fn, watch=False, kw=False): s.name, s.fn, s.watch, s.kw = name, fn, watch, kw
    def build(s, I):
        v = s.fn(I)
        if s.watch: I.watch[s.name] = v
        return v

def dims(spec):
    out = []
    for d in spec:
        out.append(num(d) if isinstance(d, int) else T.sym("dim_" + d, "int", True) if isinstance(d, str) else d)
    return tuple(out)

def mkarr(I, name, kind="any", shape=None, dtype=None):
    c = T.sym(name, kind, False)
    dt = T.sym("cddm.conf." + dtype, "any", True) if dtype else None
    if shape is not None:
        sh = dims(shape)
        I.shapes[c] = sh
        return I.newref(c, T.tup(*sh), dt)
    return I.newref(c, None, dt)

def arr(name, kind="any", shape=None, watch=False, kw=False, dtype=None):
    return Par(name, lambda I: mkarr(I, name, kind, shape, dtype), watch, kw)
def scalar(name, kind="any", kw=False): return Par(name, lambda I: T.sym(name, kind, True), False, kw)
def val(name, v, kw=False): return Par(name, lambda I: const(v) if not isinstance(v, T.Term) else v, False, kw)
def tupp(name, *ps, kw=False, watch=False): return Par(name, lambda I: T.tup(*[p.build(I) for p in ps]), watch, kw)
def lst(name, *ps, kw=False, watch=False): return Par(name, lambda I: I.mklist(T.tup(*[p.build(I) for p in ps])), watch, kw)
def kw(p): p.kw = True; return p
