"""Pair sums of the lag kernels (change of variables + linear arithmetic).

A kernel that accumulates over frame pairs is turned into contributions

    out[p] += value      for all integer points of a polyhedral region

one for every store statement reached (helpers are analysed in place).  The loop
variables are eliminated in favour of the frame numbers (A, B) of the pair that the
stored value refers to, and the resulting signed sum of regions is compared with the
region of the definition (every pair once, delay tB - tA, delay fits into the output).
Circular correlations (ifft of conj(fft)*fft) are expanded into the pairs whose
position difference is congruent to the output position; regions of the wrapped pairs
have to be empty.  All decisions are by Fourier-Motzkin elimination.
"""
from . import terms as T
from . import lin
from .terms import _mk, NONE, ELLIPSIS, TRUE, FALSE, num, Undecided
from .arrays import mkslice, FULL, isint
from .interp import State, Loop

ONE = num(1)
A, B, C, M = [T.sym("@" + x, "int", True) for x in "ABCM"]

class Contribution:
    def __init__(s, facts, ivs, path, value, where, ab=None):
        s.facts, s.ivs, s.path, s.value, s.where = list(facts), list(ivs), tuple(path), value, where
        s.ab = ab or {}          # extra reads: symbol -> index terms (positions of unit entries of a spectrum)

def neg1(p): return T.sub(ONE, p)                       # not (p<=0)
def eqfacts(p): return [p, T.neg(p)]

class Problem(Exception):
    """definite mismatch"""
    def __init__(s, aspect, msg, where=""):
        s.aspect, s.msg, s.where = aspect, msg, where
        Exception.__init__(s, msg)

# ------------------------------------------------------------------ running a kernel
class Kernel:
    """one kernel analysed with given actual arguments"""
    def __init__(s, I, fo, vin, outshape, outkind, names=None):
        s.I, s.fo = I, fo
        lay = fo.layout.replace(" ", "")
        ins, outs = lay.split("->")
        s.cores = [tuple(x for x in d.split(",") if x) for d in ins[1:-1].split("),(")]
        s.outcore = tuple(x for x in outs[1:-1].split(",") if x)
        if "(" in s.outcore: raise Undecided("several outputs")
        if len(vin) != len(s.cores): raise Undecided("argument count")
        pars = [a.arg for a in fo.node.args.args]
        dims = {}
        def learn(core, sh):
            if sh is None or len(sh) < len(core): return
            for d, t in zip(core, sh[len(sh) - len(core):]): dims.setdefault(d, t)
        learn(s.outcore, outshape)
        for v, core in zip(vin, s.cores): learn(core, I.shape_terms(v))
        s.subst = {}           # kernel symbol -> actual term (1-d arrays)
        s.syms = []
        frame = I.new("f"); I.realframes.add(frame)
        I.st = State({}, TRUE); I.loops = []; I.side = []
        I.stack, I.fstack = [fo], [frame]
        def dim(d): return dims.setdefault(d, T.sym("dim_%s" % d, "int", True))
        sigkinds = signature_kinds(fo, outkind)
        for k, (p, v, core) in enumerate(zip(pars, vin, s.cores)):
            if not core:
                I.set((frame, p), v); s.syms.append(v); continue
            spec = spectrum(v)
            if spec:
                sh = I.shape_terms(v)
                if sh is not None and len(sh) != len(core): raise Undecided("broadcast spectrum %s %s" % (T.show(v)[:300], [T.show(x) for x in sh]))
                I.set((frame, p), I.newref(v, T.tup(*[dim(d) for d in core]))); s.syms.append(v); continue
            kind = v.kind if v.kind in ("int", "real", "cplx") else sigkinds[k]
            if v.op == "num": kind = sigkinds[k] or kind
            sy = T.sym("@%s%d" % (p, k), kind or "any", False)
            I.shapes[sy] = tuple(dim(d) for d in core)
            I.set((frame, p), I.newref(sy, T.tup(*I.shapes[sy]))); s.syms.append(sy)
            if len(core) == 1 and kind == "int": s.subst[sy] = v
        s.out = T.sym("@out", outkind, False)
        s.outdims = tuple(dim(d) for d in s.outcore)
        I.shapes[s.out] = s.outdims
        s.outref = I.newref(s.out, T.tup(*s.outdims))
        I.set((frame, pars[len(s.cores)]), s.outref)
        s.dims = dims
        n0 = len(I.events)
        I.run_body(fo, frame)
        s.events = I.events[n0:]
        s.pc = I.st.pc

def spectrum(v):
    """the array is made by a Fourier transform (accumulated results of other kernels are not)"""
    if v.op == "gu": return False
    if v.op == "np" and "fft" in v.args[0]: return True
    b, n = v, 0
    while b.op in ("lens", "view", "conj", "store"): b = b.args[0]
    if b is not v: return spectrum(b)
    return v.op == "np" and any(x.op == "np" and "fft" in x.args[0] for x in T.walk(v))

def signature_kinds(fo, outkind):
    """kinds of the parameters of the signature whose output has the given kind"""
    import ast
    tbl = {"C": "cplx", "F": "real", "I64": "int", "I": "int", "U8": "int", "U16": "int"}
    sig = getattr(fo, "sigs", None)
    res = None
    if isinstance(sig, ast.List):
        for e in sig.elts:
            if not isinstance(e, ast.Tuple): continue
            ks = []
            for x in e.elts:
                while isinstance(x, ast.Subscript): x = x.value
                ks.append(tbl.get(getattr(x, "id", getattr(x, "attr", None))))
            if res is None or (ks and ks[-1] == outkind): 
                if res is None or res[-1] != outkind: res = ks
    return res or [None] * 20

# ------------------------------------------------------------------ contributions
def cases(t, facts=()):
    """(facts, leaf) of a gated value; facts conjunctive"""
    if t.op == "ite":
        v, h, l = t.args
        for fs in litsplit(v, True): yield from cases(h, tuple(facts) + fs)
        for fs in litsplit(v, False): yield from cases(l, tuple(facts) + fs)
    else: yield tuple(facts), t

def litsplit(a, val):
    """disjoint alternatives of a literal as facts"""
    if a.op == "eq0" and not val:
        p = a.args[0]
        if p.kind != "int": raise Undecided("condition %s" % T.show(a)[:80])
        return [(T.add(p, ONE),), (T.sub(ONE, p),)]
    f = lin.literal_facts(a, val)
    if not f:
        if a.op in ("lt0", "le0"):      # rational bound: scale to integers
            p = a.args[0]
            q = T.to_poly(p)
            if all(c.im == 0 for c in q.values()) and all(x.kind == "int" for m in q for x, e in m):
                den = 1
                for c in q.values(): den *= c.re.denominator
                p = T.mul(num(den), p)
                a = _mk(a.op, (p,), "bool", True)
                if p.kind == "int": return litsplit(a, val)
        raise Undecided("condition %s" % T.show(a)[:80])
    return [tuple(f)]

def guardcases(g):
    for lits in lin.paths(g):
        alts = [()]
        for a, v in lits: alts = [x + y for x in alts for y in litsplit(a, v)]
        for f in alts: yield f

_n = [0]
def fresh(tag="k"):
    _n[0] += 1
    return T.sym("@%s%d" % (tag, _n[0]), "int", True)

def expand_path(I, path, dims, facts):
    """position terms of an element of out[path]; new index variables for slices"""
    path = list(path)
    if ELLIPSIS in path:
        i = path.index(ELLIPSIS)
        path[i:i + 1] = [FULL] * (len(dims) - len(path) + 1)
    path += [FULL] * (len(dims) - len(path))
    pos, ks, fs = [], [], []
    for p, L in zip(path, dims):
        if isint(p): pos.append(p); continue
        if p.op != "slice": raise Undecided("output index %s" % T.show(p)[:60])
        k = fresh()
        a, b, c = p.args
        step = 1 if c is NONE else T.pyval(c)
        F = list(facts) + [T.neg(L), neg1(L)]
        def nrm(e, default):
            if e is NONE: return default
            if lin.entails(F, T.neg(e)): return e
            if lin.entails(F, T.add(e, ONE)): return T.add(L, e)
            raise Undecided("slice bound of unknown sign: %s" % T.show(e)[:60])
        if step > 0:
            x = T.add(nrm(a, num(0)), T.mul(num(step), k))
            f = [T.neg(k), T.add(T.sub(x, L), ONE)]
            if b is not NONE: f.append(T.add(T.sub(x, nrm(b, None)), ONE))
        else:
            x = T.add(nrm(a, T.sub(L, ONE)), T.mul(num(step), k))
            f = [T.neg(k), T.neg(x)]
            if b is not NONE: f.append(T.add(T.sub(nrm(b, None), x), ONE))
        pos.append(x); ks.append(k); fs += f
    return pos, ks, fs

def ivfacts(l):
    if l.n is None: raise Undecided("unbounded loop")
    return [T.neg(l.iv), T.add(T.sub(l.iv, l.n), ONE)]

def contributions(I, ref, dims, events, content, facts=()):
    """contributions of the stores to one buffer; Problem('accumulate') for anything but addition"""
    out = []
    for e in events:
        if e.kind != "store" or e.data[0] is not ref: continue
        lens, v, aug, operand, old = e.data[1:6]
        path = ()
        for l in lens.args:
            if l.args[0].args[1] != "idx": raise Undecided("store through a view")
            if path: raise Undecided("nested store path")
            path = l.args[1].args
        path = tuple(NONE if p.op == "const" and p.args[1] == "None" else p for p in path)
        base = list(facts)
        ivs = []
        for l in e.loops: base += ivfacts(l); ivs.append(l.iv)
        aug = aug.args[1]
        I.loops = list(e.loops)
        if aug in ("add", "sub") and operand is not NONE:
            d = operand if aug == "add" else T.neg(operand)
        else:
            d = T.sub(v, I.idx(old, path) if path else old)
        for gf in guardcases(e.guard):
            pos, ks, fs = expand_path(I, path, dims, base + list(gf))
            I.loops = list(e.loops) + [Loop(k, None) for k in ks]
            dd = d
            if ks and not d.scalar: dd = I.idx(d, tuple(ks))
            I.loops = []
            for cf, leaf in cases(dd):
                fct = base + list(gf) + fs + list(cf)
                if leaf.op == "num" and leaf.args[0].zero(): continue
                if content in T.walk(leaf):
                    if lin.unsat(fct): continue
                    raise Problem("accumulate", "the stored value is not 'previous value plus a contribution': %s" % T.show(leaf)[:200], e.where)
                out.append(Contribution(fct, ivs + ks, pos, leaf, e.where))
        I.loops = []
    return out

# ------------------------------------------------------------------ circular correlation
def isfft(t, name): return t.op == "np" and t.args[0].split(".")[-1] == name

def npargs(t): return dict(zip(t.args[1], t.args[2]))

def entries(I, content, L, depth=0):
    """non-zero entries of a zero-padded buffer: list of (vars, facts, position, element, index)"""
    if content.op == "num":
        if content.args[0].zero(): return []
        raise Undecided("constant buffer")
    if content.op == "rec" and len(content.args[0]) == 1:
        body, init, n = content.args[0][0], content.args[1][0], content.args[2]
        res = entries(I, init, L, depth + 1)
        if res: raise Undecided("fill on top of data")
        sl = [x for x in T.walk(body) if x.op == "slot"]
        if not sl: raise Undecided("fill loop")
        h = sl[0].args[0]
        k = fresh("e")
        body = T.subst(body, {T.bv(h): k}, I.rebuild)
        for f, leaf in cases(body):
            if leaf.op == "slot": continue
            if leaf.op != "store" or leaf.args[0].op != "slot" or len(leaf.args[1]) != 1 or not isint(leaf.args[1][0]): raise Undecided("fill loop body %s" % T.show(leaf)[:80])
            if any(x.op == "slot" for x in T.walk(leaf.args[2])): raise Undecided("fill loop accumulates")
            res.append(([k], [T.neg(k), T.add(T.sub(k, n), ONE)] + list(f), leaf.args[1][0], leaf.args[2], k))
        return res
    if content.op == "store":
        writes = []
        c = content
        while c.op == "store":
            if len(c.args[1]) != 1: raise Undecided("buffer store")
            writes.append((c.args[1][0], c.args[2])); c = c.args[0]
        if not (c.op == "num" and c.args[0].zero()) and c.op != "empty": raise Undecided("buffer base %s" % T.show(c)[:60])
        res, later = [], []
        for sl, v in writes:
            if sl.op == "slice":
                pos, ks, fs = expand_path(I, (sl,), (L,), [neg1(L)])
                k = ks[0]
                region = (fs, pos[0], k)
            elif isint(sl): region = ([], sl, None); k = None
            else: raise Undecided("buffer store index")
            zero = v.op == "num" and v.args[0].zero()
            if not zero:
                for f2, p2, k2 in later:
                    if not lin.unsat(region[0] + f2 + eqfacts(T.sub(region[1], p2))): raise Undecided("overlapping buffer writes")
                I.loops = [Loop(k, None)] if k is not None else []
                el = I.idx(v, (k,)) if k is not None and not v.scalar else v
                I.loops = []
                res.append(([k] if k is not None else [], list(region[0]), region[1], el, k))
            later.append(region)
        if c.op == "empty":
            # every position written?
            q = fresh("q")
            F = [T.neg(q), T.add(T.sub(q, L), ONE), neg1(L)]
            if not uncovered(F, [project(f, p, k, q) for f, p, k in later]) :
                raise Problem("pairs", "part of the padded buffer is never initialised")
        return res
    raise Undecided("buffer content %s" % T.show(content)[:80])

def project(facts, pos, k, q):
    """facts about position q of a write at pos(k)"""
    if k is None: return eqfacts(T.sub(q, pos))
    m = solve([(q, pos)], [k])[0]
    if k not in m: raise Undecided("buffer position")
    return [T.subst(f, m) for f in facts]

def initial(c):
    """content a buffer had before the loops that produced c"""
    while c.op == "rec":
        if len(c.args[1]) != 1: raise Undecided("content of several buffers")
        c = c.args[1][0]
    return c

def uncovered(F, regions):
    """True when the points of F are all in some region"""
    if not regions: return lin.unsat(F)
    r = regions[0]
    acc = []
    for c in r:
        if not uncovered(F + acc + [neg1(c)], regions[1:]): return False
        acc.append(c)
    return True

def circular(I, x):
    """operand pairs of a product of two spectra: list of (facts, vars, posdiff, value, (iU, iV)), length, plain"""
    if x.op == "grp": x = x.args[0]
    p = list(T.to_poly(x).items())
    if len(p) != 1: raise Undecided("spectrum is not a product")
    (m, c), = p
    U = V = None
    fs = []
    for a, e in m:
        if e == 1: fs.append(a)
        elif e == 2: fs += [a, a]
        else: raise Undecided("spectrum power")
    if len(fs) != 2: raise Undecided("spectrum is not a product of two")
    cj = [f for f in fs if f.op == "conj"]; pl = [f for f in fs if f.op != "conj"]
    if len(cj) == 2 or len(cj) == 0:
        if all(isfft(f.args[0] if f.op == "conj" else f, "fft") for f in fs): raise Problem("term", "product of two spectra of which %s is conjugated" % ("none" if not cj else "each"))
        raise Undecided("spectrum product")
    U, V = cj[0].args[0], pl[0]
    if not (isfft(U, "fft") and isfft(V, "fft")): raise Undecided("spectrum factor %s" % T.show(U)[:60])
    au, av = npargs(U), npargs(V)
    Lu, Lv = length(I, au), length(I, av)
    if Lu is None or Lv is None: raise Undecided("length of a transform")
    if Lu is not Lv: raise Undecided("transforms of different length")
    eu, ev = entries(I, au["a"], Lu), entries(I, av["a"], Lv)
    res = []
    for vu, fu, pu, xu, iu in eu:
        # separate variables when both factors come from the same buffer
        mm = {k: fresh("u") for k in vu}
        sb = lambda t: T.subst(t, mm, I.rebuild)
        for vv, fv, pv, xv, iv_ in ev:
            res.append(([sb(f) for f in fu] + list(fv), [mm[k] for k in vu] + list(vv), T.sub(pv, sb(pu)), T.mul(num(c), T.mul(T.conj(sb(xu)), xv)), (mm.get(iu), sb(xu), iv_, xv)))
    return res, Lu

def length(I, a):
    n = a.get("n")
    if n is not None and n is not NONE: return n
    sh = I.shape_terms(a["a"])
    if sh is not None: return sh[-1]
    return None

def expand_fft(I, c, sp):
    """replace values of a circular correlation by the pairs they sum over"""
    at = [x for x in T.walk(c.value) if x.op == "idx" and isfft(x.args[0], "ifft")]
    if not at:
        if any(isfft(x, "ifft") for x in T.walk(c.value)): raise Undecided("transform used as a whole")
        return [c]
    if len(at) != 1: raise Undecided("several transform values")
    at = at[0]
    if len(at.args[1]) != 1 or not isint(at.args[1][0]): raise Undecided("transform index")
    q = at.args[1][0]
    d = npargs(at.args[0])
    if d.get("n", NONE) is not NONE: raise Undecided("truncated inverse transform")
    pairs, L = circular(I, d["a"])
    for m, _ in T.to_poly(c.value).items():
        if not any(a is at or (a.op == "conj" and a.args[0] is at) for a, e in m): raise Undecided("transform value mixed with other terms")
    out = []
    for f, vs, pd, val, (iu, xu, iv_, xv) in pairs:
        for s in range(-3, 4):
            eq = T.sub(T.sub(pd, q), T.mul(num(s), L))
            F = c.facts + f + eqfacts(eq)
            if unsat(sp, [subst_arrays(I, x, sp.sub) for x in F] + sp.facts, I): continue
            if abs(s) == 3: raise Undecided("unbounded wrap-around")
            n = Contribution(c.facts + f + eqfacts(eq), c.ivs + vs, c.path, T.subst(c.value, {at: val}, I.rebuild), c.where)
            n.eqs = [eq]
            for ix, xx in ((iu, xu), (iv_, xv)):
                if xx.op == "num" and ix is not None: n.ab["unit"] = ix
            n.wrap = s
            out.append(n)
    return out

# ------------------------------------------------------------------ linear algebra
def coefof(p, v):
    """(coefficient of v, rest) or None when v occurs non-linearly"""
    c = 0; rest = {}
    for m, k in T.to_poly(p).items():
        if m == ((v, 1),): 
            if k.im != 0: return None
            c = k.re; continue
        for a, e in m:
            if v in a.fv or a is v or v in T.walk(a): return None
        rest[m] = k
    return c, T.from_poly(rest)

def solve(eqs, ivs, extra=()):
    """solve lhs == rhs for the variables; (mapping var->term, residual equalities)"""
    todo = [T.sub(a, b) for a, b in eqs] + list(extra)
    m = {}
    left = list(ivs)
    prog = True
    while prog:
        prog = False
        for e in list(todo):
            for v in left:
                c = coefof(e, v)
                if c is None or c[0] not in (1, -1): continue
                x = T.mul(num(-c[0]), c[1])
                todo.remove(e)
                todo = [T.subst(t, {v: x}) for t in todo]
                m = {k: T.subst(t, {v: x}) for k, t in m.items()}
                m[v] = x; left.remove(v)
                prog = True
                break
            if prog: break
    return m, [t for t in todo if not (t.op == "num" and t.args[0].zero())], left

def equalities(facts):
    S = set(facts); out = []
    for f in facts:
        if T.neg(f) in S and f not in out and T.neg(f) not in out: out.append(f)
    return out

def timefacts(facts, I=None):
    """min(t) <= t[i] <= max(t) and order of extrema for the arrays that occur"""
    els, ext = {}, {}
    for f in facts:
        for x in T.walk(f):
            if x.op == "idx" and x.kind == "int" and x.args[0].op == "sym" and x.scalar: els.setdefault(x.args[0], set()).add(x)
            if x.op == "np" and x.args[0].split(".")[-1] in ("min", "max", "amin", "amax") and len(x.args[2]) == 1: ext.setdefault(x.args[2][0], set()).add(x)
    out = []
    for v, es in ext.items():
        mn = [e for e in es if e.args[0].endswith("min")]; mx = [e for e in es if e.args[0].endswith("max")]
        for a in mn:
            for e in els.get(v, ()): out.append(T.sub(a, e))
            for b in mx: out.append(T.sub(a, b))
        for b in mx:
            for e in els.get(v, ()): out.append(T.sub(e, b))
    return out

# ------------------------------------------------------------------ comparison with the definition
class Spec:
    """definition of a pair sum.
    op: corr, diff, sum, count;  X, Y: kernel symbols of the operands (Y None: single operand)
    tA, tB: functions frame number -> time (public terms);  nA, nB: numbers of frames
    signed: delay keeps its sign;  K: output length;  half: number of delays for signed output
    auto: unordered pairs;  inverted: X belongs to the second camera (sum only)"""
    def __init__(s, **k):
        s.Y = None; s.auto = s.signed = s.inverted = False; s.half = None; s.facts = []; s.real = True; s.T1 = s.T2 = None; s.sub = {}; s.distinct = False; s.implicit = 0; s.swap = False
        s.__dict__.update(k)
    def lag(s): return T.sub(s.tB(B), s.tA(A))
    def fits(s, m):
        if s.signed: return [T.add(T.sub(T.absv(m), s.half), ONE)]
        return [T.add(T.sub(T.absv(m), s.K), ONE)]
    def region(s):
        r = [T.neg(A), T.add(T.sub(A, s.nA), ONE), T.neg(B), T.add(T.sub(B, s.nB), ONE)]
        if s.auto: r.append(T.sub(A, B))
        return r + s.fits(s.lag())

def reads(terms, sym):
    syms = sym if isinstance(sym, (set, frozenset)) else {sym}
    r = set()
    for t in terms:
        for x in T.walk(t):
            if x.op == "idx" and x.args[0] in syms: r.add(x.args[1])
    return r

def val2(I, t, m):
    return T.subst(t, m, I.rebuild)

def pairs(I, sp, cs):
    """contributions in the coordinates of the definition: list of (facts, p, value, where)"""
    out = []
    for c0 in cs:
        for c in expand_fft(I, c0, sp):
            xs = reads([c.value], sp.X) if sp.X is not None else set()
            ys = reads([c.value], sp.Y) if sp.Y is not None else set()
            eqs = []
            if sp.op in ("corr", "diff"):
                if sp.auto:
                    ax = sorted({p[0] for p in xs}, key=lambda t: t.id)
                    if len(ax) == 1: ax = ax * 2
                    if len(ax) != 2: raise Problem("term", "a contribution refers to %d frames: %s" % (len(ax), T.show(c.value)[:160]), c.where)
                else:
                    a1 = {p[0] for p in xs}; b1 = {p[0] for p in ys}
                    if len(a1) != 1 or len(b1) != 1: raise Problem("term", "a contribution does not combine one frame of each camera: %s" % T.show(c.value)[:160], c.where)
                    ax = [a1.pop(), b1.pop()]
                eqs = [(A, ax[0]), (B, ax[1])]
            elif sp.op == "sum":
                a1 = {p[0] for p in xs}
                if len(a1) != 1: raise Problem("term", "a contribution is not one frame of the summed camera: %s" % T.show(c.value)[:160], c.where)
                b = c.ab.get("unit")
                if b is None:
                    b1 = {p[0] for p in reads(c.facts + list(c.path), sp.T2)} - a1
                    if len(b1) != 1: raise Undecided("partner frame of a sum")
                    b = b1.pop()
                eqs = [(A, a1.pop()), (B, b)]
            elif sp.op == "count":
                if sp.implicit:
                    if len(c.ivs) != 2: raise Undecided("loops of a count")
                    i, j = c.ivs
                    ab = [(i, j), (j, i), (i, T.add(i, j)), (j, T.add(i, j))][sp.implicit - 1]
                else:
                    a1 = {p[0] for p in reads(c.facts + list(c.path), sp.T1)}; b1 = {p[0] for p in reads(c.facts + list(c.path), sp.T2)}
                    if sp.auto or sp.T1 is sp.T2:
                        ab = sorted(a1 | b1, key=lambda t: t.id)
                        if len(ab) == 1: ab = ab * 2
                        if len(ab) != 2: raise Undecided("frames of a count")
                        if sp.swap: ab = ab[::-1]
                    else:
                        if len(a1) != 1 or len(b1) != 1: raise Undecided("frames of a count")
                        ab = (a1.pop(), b1.pop())
                eqs = [(A, ab[0]), (B, ab[1])]
            if len(c.path) > 1:
                eqs.append((C, c.path[1]))
                cc = {p[1] for p in xs | ys if len(p) > 1}
                eqs += [(C, z) for z in cc]
            m, resid, left = solve(eqs, c.ivs, getattr(c, "eqs", []) + equalities(c.facts))
            if left: raise Undecided("loop variable %s does not identify a frame" % T.show(left[0]))
            def f(t, depth=0):
                t = val2(I, t, m)
                return val2(I, t, {}) if not sp.sub else subst_arrays(I, t, sp.sub)
            facts = [f(x) for x in c.facts]
            for r in resid: facts += eqfacts(f(r))
            alts = [(facts, f(c.path[0]), f(c.value))]
            if sp.auto:
                sw = {A: B, B: A}
                alts2 = []
                for fc, p, v in alts:
                    alts2.append((fc + [T.sub(A, B)], p, v))
                    g = lambda t: T.subst(t, sw, I.rebuild)
                    alts2.append(([g(x) for x in fc] + [T.add(T.sub(A, B), ONE)], g(p), g(v)))
                alts = alts2
            for fc, p, v in alts: out.append((fc, p, v, c.where))
    return out

def subst_arrays(I, t, sub):
    """replace reads of kernel symbols by the actual arrays"""
    m = {}
    for x in T.walk(t):
        if x.op == "idx" and x.args[0] in sub: m[x] = I.idx(sub[x.args[0]], x.args[1])
    return T.subst(t, m, I.rebuild) if m else t

def context(sp, facts, I):
    """facts that hold in addition: extrema of times, distinct stamps"""
    return facts + sp.facts + timefacts(facts + sp.facts, I)

def unsat(sp, facts, I): return lin.unsat(context(sp, facts, I))

def distinct_cases(sp):
    """auto data: equal frame numbers have equal stamps, different frames different stamps"""
    if not sp.distinct: return [[]]
    d = sp.lag(); e = T.sub(B, A)
    return [eqfacts(d) + eqfacts(e)] + [[x, y] for x in (neg1(d), neg1(T.neg(d))) for y in (neg1(e), neg1(T.neg(e)))]

def check_pairs(I, sp, ps):
    """every pair once, in the bin of its own delay"""
    S = sp.region()
    m = sp.lag()
    for dc in distinct_cases(sp):
        live = [(fc, p, v, w) for fc, p, v, w in ps if not unsat(sp, fc + dc, I)]
        for fc, p, v, w in live:
            F = fc + dc
            for s_ in S:
                if not unsat(sp, F + [neg1(s_)], I):
                    raise Problem("pairs", "a contribution is added although the pair is not part of the result (%s fails) for out[%s]" % (T.show(s_)[:80] + " <= 0", T.show(p)[:80]), w)
            tgt = m if sp.signed else T.absv(m)
            d = T.sub(p, tgt)
            for alt in misplaced(d, sp.K):
                if not unsat(sp, F + alt, I):
                    raise Problem("pairs", "a pair with delay %s is stored at %s" % (T.show(m)[:80], T.show(p)[:80]), w)
        for i in range(len(live)):
            for j in range(i):
                if not unsat(sp, live[i][0] + live[j][0] + dc, I):
                    raise Problem("pairs", "the same pair is added twice", live[i][3])
        regs = [prune(sp, fc, S + dc, I) for fc, p, v, w in live]
        if not covered(sp, S + dc, regs, I):
            raise Problem("pairs", "some pairs of frames whose delay fits are never added", live[0][3] if live else "")

def misplaced(d, K):
    """alternatives in which d is neither 0, K nor -K (position modulo the output length)"""
    return [[neg1(d), T.add(T.sub(d, K), ONE)], [neg1(T.neg(d)), T.add(T.sub(T.neg(d), K), ONE)], [neg1(T.sub(d, K))], [neg1(T.sub(T.neg(d), K))]]

def prune(sp, region, S, I):
    """constraints of a region that are not implied by the definition's region"""
    out = []
    seen = set()
    for c in region:
        if c in seen or c.op == "num": continue
        seen.add(c)
        if not unsat(sp, S + [neg1(c)], I): out.append(c)
    return out

def covered(sp, F, regs, I):
    if unsat(sp, F, I): return True
    if not regs: return False
    r = regs[0]; acc = []
    for c in r:
        if not covered(sp, F + acc + [neg1(c)], regs[1:], I): return False
        acc.append(c)
    return True

def proportional(a, b):
    """a == c*b with a constant c"""
    p, q = T.to_poly(a), T.to_poly(b)
    if set(p) != set(q) or not p: return False
    m = next(iter(p))
    x, y = p[m], q[m]
    return all((p[k] * y - q[k] * x).zero() for k in p)

def check_terms(I, sp, ps):
    """the value added for a pair is the one of the definition"""
    x = lambda k: I.idx(sp.X, (k, C)[:sp.nd])
    for fc, p, v, w in ps:
        if sp.op == "count": want = [([], num(1))]
        elif sp.op == "sum": want = [([], x(A))]
        elif sp.op == "diff":
            y = I.idx(sp.X if sp.auto else sp.Y, (B, C)[:sp.nd])
            d = T.sub(y, x(A)); want = [([], T.mul(d, T.conj(d)))]
        else:
            y = I.idx(sp.X if sp.auto else sp.Y, (B, C)[:sp.nd])
            e = T.mul(T.conj(x(A)), y)
            if sp.real: want = [([], T.real(e))]
            elif sp.auto:
                m = sp.lag()
                want = [([neg1(m)], e), ([neg1(T.neg(m))], T.conj(e)), (eqfacts(m) + eqfacts(T.sub(A, B)), None)]
            else: want = [([], e)]
        for f, wv in want:
            for dc in distinct_cases(sp):
                if unsat(sp, fc + f + dc, I): continue
                vv = v
                if wv is None:      # same frame twice
                    vv = T.subst(v, {B: A}, I.rebuild); wv2 = T.mul(x(A), T.conj(x(A)))
                else: wv2 = wv
                if vv is not wv2:
                    q = proportional(vv, wv2)
                    raise Problem("weight" if q else "term", "the pair (a, b) contributes %s instead of %s" % (T.show(vv)[:160], T.show(wv2)[:160]), w)
                break

# ------------------------------------------------------------------ per-delay sums of regular data
def linear_elements(I, value, facts, ivs, X, where):
    """value as a signed sum of elements of X: (coefficient, element index, facts, ivs)"""
    out = []
    for cf, leaf in cases(value):
        F = list(facts) + list(cf)
        for mono, co in T.to_poly(leaf).items():
            if len(mono) != 1 or mono[0][1] != 1: raise Problem("term", "a contribution is not a sum of frames: %s" % T.show(value)[:160], where)
            a = mono[0][0]
            if a.op == "conj": raise Problem("term", "a per-delay sum adds the conjugate of a frame: %s" % T.show(value)[:160], where)
            if a.op == "idx" and a.args[0] is X: out.append((co, a.args[1], F, list(ivs)))
            elif a.op == "psum" and a.args[0] is X:
                k = fresh("s")
                out.append((co, a.args[1] + (k,) + a.args[2], F + [T.neg(k), T.add(T.sub(k, a.args[3]), ONE)], list(ivs) + [k]))
            elif a.op == "sum":
                lo, hi, body = a.args
                bvs = [x for x in T.walk(body) if x.op == "bv"]
                k = fresh("s")
                if len(set(bvs)) > 1: raise Undecided("nested sums")
                b2 = T.subst(body, {bvs[0]: k}, I.rebuild) if bvs else body
                for c2, e2, f2, i2 in linear_elements(I, b2, F + [T.sub(lo, k), T.add(T.sub(k, hi), ONE)], list(ivs) + [k], X, where):
                    out.append((T.G(co.re, co.im) * c2, e2, f2, i2))
            else: raise Undecided("summand %s" % T.show(a)[:80])
    return out

_balanced = {}
def check_regular_sum(I, sp, cs):
    """per-delay sums without time stamps: multiplicity of frame A at delay M.
    signed: partner frame A + M (A - M when inverted); otherwise |partner - A| = M"""
    K = sp.K
    conts = []
    for c in cs:
        for co, el, F, ivs in linear_elements(I, c.value, c.facts, c.ivs, sp.X, c.where):
            if not co.real(): raise Problem("term", "complex weight of a frame", c.where)
            p = c.path[0]
            eqs = [(A, el[0]), (M, p)]
            if len(c.path) > 1: eqs += [(C, c.path[1]), (C, el[1])]
            m, resid, left = solve(eqs, ivs, equalities(F))
            if left: raise Undecided("loop variable %s" % T.show(left[0]))
            f = lambda t: T.subst(t, m, I.rebuild)
            facts = [f(x) for x in F]
            for r in resid: facts += eqfacts(f(r))
            # position -> signed delay
            if sp.signed:
                alts = [(facts + [T.sub(sp.half, M)], T.add(M, K)), (facts + [T.add(M, sp.half)], T.sub(M, K)), (facts + [T.add(T.sub(M, sp.half), ONE), T.sub(ONE, T.add(M, sp.half))], M)]
                for fc, mm in alts:
                    if not unsat(sp, fc, I):
                        mp = {M: mm}
                        conts.append((co.re, [T.subst(x, mp) for x in fc], c.where))
            else:
                conts.append((co.re, facts, c.where))
                neg = facts + [T.add(M, ONE)]
                if not unsat(sp, neg, I): conts.append((co.re, [T.subst(x, {M: T.sub(M, K)}) for x in neg], c.where)); conts[-2] = (co.re, facts + [T.neg(M)], c.where)
    n = sp.nA
    dom = [T.neg(A), T.add(T.sub(A, n), ONE)]
    up = [T.add(T.sub(T.add(A, M), n), ONE), T.neg(T.add(A, M))]
    dn = [T.add(T.sub(T.sub(A, M), n), ONE), T.neg(T.sub(A, M))]
    if sp.signed:
        lim = [T.add(T.sub(M, sp.half), ONE), T.add(T.sub(T.neg(M), sp.half), ONE)]
        spec = [(-1, dom + lim + (dn if sp.inverted else up))]
    else:
        lim = [T.neg(M), T.add(T.sub(M, K), ONE)]
        spec = [(-1, dom + lim + up), (-1, dom + lim + [neg1(M)] + dn)]
    allr = [(c, f) for c, f, w in conts] + spec
    key = (frozenset((c, frozenset(f)) for c, f in allr), tuple(sp.facts), len(allr))
    if key in _balanced: bad = _balanced[key]
    else: bad = _balanced[key] = balance(sp, [], allr, 0, I)
    if bad is not None:
        raise Problem("pairs", "frames are added a wrong number of times (%s too %s) for some delay, e.g. where %s" % (abs(bad[0]), "often" if bad[0] > 0 else "rarely", "; ".join(T.show(x)[:60] + "<=0" for x in bad[1][:6])), conts[0][2] if conts else "")

def balance(sp, F, regs, total, I):
    """signed number of regions containing a point is zero everywhere, or a counterexample cell"""
    if unsat(sp, F, I): return None
    if not regs: return None if total == 0 else (total, F)
    c, r = regs[0]
    # drop constraints that already hold; stop when excluded
    acc = []
    b = balance(sp, F + r, regs[1:], total + c, I)
    if b is not None: return b
    for x in r:
        if unsat(sp, F + acc + [neg1(x)], I): continue
        b = balance(sp, F + acc + [neg1(x)], regs[1:], total, I)
        if b is not None: return b
        acc.append(x)
    return None
