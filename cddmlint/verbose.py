"""Effect analysis of the verbosity level: an abstract interpretation of the syntax trees that
tracks, on every path through a function (normal, early return, exception, yield), how the current
level relates to the level at entry.  Calls inside the package are followed; decorators and
context managers are analysed as the functions they are."""
import ast
from .terms import Undecided

V = ("entry",)
UNK = ("?",)

def absn(t):
    if t[0] == "num": return ("num", abs(t[1]))
    if t[0] in ("neg", "abs"): return absn(t[1]) if t[0] == "neg" else t
    return ("abs", t)
def negn(t):
    if t[0] == "neg": return t[1]
    if t[0] == "num": return ("num", -t[1])
    return ("neg", t)
def show(t):
    if t[0] == "entry": return "the level at entry"
    if t[0] == "abs": return "|%s|" % show(t[1])
    if t[0] == "neg": return "-%s" % show(t[1])
    if t[0] == "num": return str(t[1])
    if t[0] == "havoc": return "a level set by the wrapped function"
    return "an unknown level"

class St:
    __slots__ = ("v", "env", "br")
    def __init__(s, v, env=(), br=()): s.v, s.env, s.br = v, env, br
    def key(s): return (s.v, s.env, s.br)
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return s.key() == o.key()
    def get(s, k, d=UNK): return dict(s.env).get(k, d)
    def put(s, k, x):
        e = dict(s.env)
        if x is None or x == UNK: e.pop(k, None)
        else: e[k] = x
        return St(s.v, tuple(sorted(e.items(), key=lambda i: i[0])), tuple(b for b in s.br if k not in b[2]))
    def withv(s, v): return St(v, s.env, s.br)

class Fn:
    """function definition with its module and enclosing definitions"""
    def __init__(s, node, mod, encl=(), cls=None): s.node, s.mod, s.encl, s.cls = node, mod, encl, cls
    @property
    def name(s): return s.node.name if hasattr(s.node, "name") else "<lambda>"
    @property
    def qual(s): return "%s.%s%s" % (s.mod.name, s.cls + "." if s.cls else "", s.name)
    @property
    def isgen(s):
        from .project import has_yield
        return not isinstance(s.node, ast.Lambda) and has_yield(s.node)

class Analyzer:
    def __init__(s, P, setters=("cddm.conf.set_verbose",)):
        s.P = P
        s.funcs = {}
        for m in P.mods.values():
            if m.name.startswith("spec.") or ".test" in m.name: continue
            s.collect(m.tree.body, m, (), None)
        s.touching()
        s.depth = 0; s.n = 0; s.active = []; s.loud = []

    def collect(s, body, m, encl, cls):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Fn(n, m, encl, cls)
                s.funcs[id(n)] = f
                for x in ast.walk(n):
                    if isinstance(x, ast.FunctionDef) and x is not n and id(x) not in s.funcs: s.funcs[id(x)] = Fn(x, m, encl + (n,), cls)
            elif isinstance(n, ast.ClassDef): s.collect(n.body, m, encl, n.name)
            elif isinstance(n, (ast.If, ast.Try)):
                s.collect(n.body, m, encl, cls); s.collect(n.orelse, m, encl, cls)

    # ----------------------------------------------------------------- resolution
    def islevel(s, n, f):
        """expression naming the verbosity setting"""
        if not (isinstance(n, ast.Attribute) and n.attr == "verbose"): return False
        o = n.value
        u = ast.unparse(o)
        return u.split(".")[-1].lower() == "cddmconfig"

    def resolve(s, n, f):
        """callee definition of a Name / module attribute, or None"""
        if isinstance(n, ast.Name):
            for e in reversed(f.encl + (f.node,)):
                for x in ast.walk(e):
                    if isinstance(x, ast.FunctionDef) and x.name == n.id and x is not e: return s.funcs.get(id(x))
            return s.in_module(f.mod, n.id)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == "self" and f.cls:
                for m in f.mod.tree.body:
                    if isinstance(m, ast.ClassDef) and m.name == f.cls:
                        for x in m.body:
                            if isinstance(x, ast.FunctionDef) and x.name == n.attr: return s.funcs.get(id(x))
                return None
            mod = s.module_of(n.value, f.mod)
            if mod is not None: return s.in_module(mod, n.attr)
        return None

    def module_of(s, n, mod):
        u = ast.unparse(n)
        if u in s.P.mods: return s.P.mods[u]
        if isinstance(n, ast.Name):
            for b, c in mod.bind.get(n.id, ()):
                if isinstance(b, ast.Import):
                    for a in b.names:
                        if (a.asname or a.name) == n.id and a.name in s.P.mods: return s.P.mods[a.name]
                if isinstance(b, ast.ImportFrom) and b.module:
                    for a in b.names:
                        if (a.asname or a.name) == n.id and b.module + "." + a.name in s.P.mods: return s.P.mods[b.module + "." + a.name]
        return None

    def in_module(s, mod, name, depth=0):
        if depth > 5: return None
        for b, c in mod.bind.get(name, ()):
            if isinstance(b, ast.FunctionDef): return s.funcs.get(id(b))
            if isinstance(b, ast.ImportFrom):
                base = b.module or ""
                if b.level: base = ".".join(mod.name.split(".")[:-b.level] + ([b.module] if b.module else []))
                m = s.P.mods.get(base)
                if m is not None:
                    for a in b.names:
                        if (a.asname or a.name) == name: return s.in_module(m, a.name, depth + 1)
            if isinstance(b, ast.Assign) and isinstance(b.value, ast.Name): return s.in_module(mod, b.value.id, depth + 1)
        return None

    def touching(s):
        """functions that may write the level, transitively"""
        s.touch = set()
        calls = {}
        for k, f in s.funcs.items():
            c = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        for y in ast.walk(t):
                            if s.islevel(y, f): s.touch.add(k)
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == "verbose": s.touch.add(k)
                if isinstance(x, (ast.Name, ast.Attribute)):
                    g = s.resolve(x, f)
                    if g is not None: c.add(id(g.node))
            calls[k] = c
        ch = True
        while ch:
            ch = False
            for k, c in calls.items():
                if k not in s.touch and c & s.touch: s.touch.add(k); ch = True

    # ----------------------------------------------------------------- execution
    # outcome: (kind, state, value) with kind next/return/raise/break/continue
    def run(s, f, params=None, wrapped=None, st=None, onyield=None):
        """outcomes of calling f: list of (kind, St, value)"""
        s.depth += 1
        if s.depth > 12: s.depth -= 1; raise Undecided("verbosity analysis: recursion")
        try:
            env = {}
            for k, x in (params or {}).items(): env[k] = x
            st0 = St((st.v if st else V), tuple(sorted(env.items(), key=lambda i: i[0])))
            fr = Frame(f, wrapped, onyield)
            if isinstance(f.node, ast.Lambda): raise Undecided("lambda")
            outs = s.block(f.node.body, [st0], fr)
            res = []
            for k, x, val in outs:
                if k == "next": res.append(("return", x, UNK))
                else: res.append((k, x, val))
            return res, fr
        finally: s.depth -= 1

    def block(s, body, sts, fr):
        outs = []; cur = list(dict.fromkeys(sts))
        for n in body:
            nxt = []
            for st in cur:
                s.n += 1
                if s.n > 200000: raise Undecided("verbosity analysis: too many paths")
                for o in s.stmt(n, st, fr):
                    if o[0] == "next": nxt.append(o[1])
                    else: outs.append(o)
            cur = list(dict.fromkeys(nxt))
            if len(cur) > 300: raise Undecided("verbosity analysis: too many paths")
            if not cur: break
        return list(dict.fromkeys(outs)) + [("next", x, None) for x in cur]

    def stmt(s, n, st, fr):
        m = getattr(s, "s_" + type(n).__name__, None)
        if m is not None: return m(n, st, fr)
        outs, vs = s.exprs([x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)], st, fr)
        return outs + [("next", x, None) for x, _ in vs]

    def s_FunctionDef(s, n, st, fr): return [("next", st, None)]
    s_ClassDef = s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_FunctionDef
    def s_Break(s, n, st, fr): return [("break", st, None)]
    def s_Continue(s, n, st, fr): return [("continue", st, None)]
    def s_Raise(s, n, st, fr):
        outs, vs = s.exprs([x for x in (n.exc,) if x is not None], st, fr)
        return outs + [("raise", x, n.lineno) for x, _ in vs]
    def s_Return(s, n, st, fr):
        outs, vs = s.exprs([n.value] if n.value is not None else [], st, fr)
        return outs + [("return", x, v[0] if v else UNK) for x, v in vs]
    def s_Expr(s, n, st, fr):
        outs, vs = s.exprs([n.value], st, fr)
        return outs + [("next", x, None) for x, _ in vs]
    def s_Assign(s, n, st, fr):
        outs, vs = s.exprs([n.value], st, fr)
        for x, v in vs:
            for t in n.targets: x = s.assign(t, v[0], x, fr, n.value)
            outs.append(("next", x, None))
        return outs
    def s_AnnAssign(s, n, st, fr):
        if n.value is None: return [("next", st, None)]
        outs, vs = s.exprs([n.value], st, fr)
        return outs + [("next", s.assign(n.target, v[0], x, fr), None) for x, v in vs]
    def s_AugAssign(s, n, st, fr):
        outs, vs = s.exprs([n.value], st, fr)
        return outs + [("next", s.assign(n.target, UNK, x, fr), None) for x, v in vs]
    def assign(s, t, v, st, fr, value=None):
        if s.islevel(t, fr.f): return st.withv(v)
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, y in zip(t.elts, value.elts): st = s.assign(x, s.pure(y, st, fr), st, fr)
                return st
            for x in t.elts: st = s.assign(x, UNK, st, fr)
            return st
        if v[0] in ("num", "none") and not s.keepnum: v = UNK
        if isinstance(t, ast.Name): return st.put(t.id, v)
        if isinstance(t, ast.Attribute): return st.put(ast.unparse(t), v)
        if isinstance(t, ast.Starred): return s.assign(t.value, UNK, st, fr)
        return st

    def s_If(s, n, st, fr):
        outs, vs = s.exprs([n.test], st, fr)
        key = ast.dump(n.test)
        names = frozenset(x.id if isinstance(x, ast.Name) else ast.unparse(x) for x in ast.walk(n.test) if isinstance(x, (ast.Name, ast.Attribute)))
        simple = not any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(n.test))
        for x, v in vs:
            known = [b[1] for b in x.br if b[0] == key]
            for val, body in ((True, n.body), (False, n.orelse)):
                if known and known[0] != val: continue
                y = St(x.v, x.env, x.br if known or not simple else tuple(sorted(x.br + ((key, val, names),), key=lambda b: b[0]))) if s.relevant(n) else x
                outs += s.block(body, [y], fr) if body else [("next", y, None)]
        return list(dict.fromkeys(outs))

    def relevant(s, n):
        """a branch that contains verbosity changes"""
        for x in n.body + n.orelse:
            for y in ast.walk(x):
                if isinstance(y, (ast.Name, ast.Attribute)):
                    if isinstance(y, ast.Attribute) and y.attr == "verbose": return True
                    nm = y.id if isinstance(y, ast.Name) else y.attr
                    if nm in ("disable_prints", "enable_prints", "set_verbose"): return True
        return False

    def s_For(s, n, st, fr):
        outs, vs = s.exprs([n.iter], st, fr)
        names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        return outs + s.loop(n, [x for x, _ in vs], fr, names, ast.unparse(n.iter) if s.iterwrapped(n.iter, fr) else None)
    def s_While(s, n, st, fr): 
        return s.loop(n, [st], fr, set(), None)
    def loop(s, n, sts, fr, names, hav):
        inf = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
        outs = []; seen = set(); todo = list(sts); done = []
        while todo:
            st = todo.pop()
            if st in seen: continue
            seen.add(st)
            if len(seen) > 200: raise Undecided("verbosity analysis: loop")
            if isinstance(n, ast.While):
                o, vs = s.exprs([n.test], st, fr); outs += o; st2 = [x for x, _ in vs]
            else:
                st2 = [st]; 
                if hav: outs.append(("raise", st.withv(("havoc",)), n.lineno)); st2 = [st.withv(("havoc",))]
                else: outs.append(("raise", st, n.lineno))
            for x in st2:
                if not inf: done.append(x)
                for nm in names: x = x.put(nm, UNK)
                for k, y, v in s.block(n.body, [x], fr):
                    if k in ("next", "continue"): todo.append(y)
                    elif k == "break": done.append(("b", y))
                    else: outs.append((k, y, v))
        for d in dict.fromkeys(done):
            if isinstance(d, tuple): outs.append(("next", d[1], None))
            elif n.orelse: outs += s.block(n.orelse, [d], fr)
            else: outs.append(("next", d, None))
        return list(dict.fromkeys(outs))

    def iterwrapped(s, it, fr):
        """iteration of the wrapped generator"""
        return isinstance(it, ast.Name) and (it.id in fr.iters or it.id == fr.wrapped)or isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == fr.wrapped

    def s_With(s, n, st, fr, k=0):
        if k == len(n.items): return s.block(n.body, [st], fr)
        it = n.items[k].context_expr
        g = s.resolve(it.func, fr.f) if isinstance(it, ast.Call) else None
        if g is not None and id(g.node) in s.touch and g.isgen:
            args, outs0 = s.bind(g, it, st, fr)
            outs = []
            def onyield(inner, v):
                """the body runs at the yield of the context manager"""
                res = []
                y = St(inner.v, st.env, st.br)
                for kk, z, vv in s.s_With(n, y, fr, k + 1): res.append((kk, z, vv))
                return res
            o, _ = s.run_cm(g, args, st, onyield)
            return outs0 + o
        outs, vs = s.exprs([it], st, fr)
        for x, v in vs:
            if n.items[k].optional_vars is not None: x = s.assign(n.items[k].optional_vars, UNK, x, fr)
            outs += s.s_With(n, x, fr, k + 1)
        return list(dict.fromkeys(outs))

    def run_cm(s, g, args, st, body):
        """context manager generator: outcomes of the with statement"""
        holder = {}
        def onyield(inner, v):
            res = []
            for k, z, vv in body(inner, v):
                # continue the generator with the level of z, remember z's own environment
                y = St(z.v, inner.env, inner.br).put("!outer", ("o", k, z.env, z.br, vv))
                res.append(("next" if k != "raise" else "raise", y, vv))
            return res
        outs, fr = s.run(g, args, None, st, onyield)
        res = []
        for k, z, v in outs:
            o = z.get("!outer")
            if o[0] == "o":
                kk = o[1] if (k in ("return", "next") and o[1] != "raise") or k == "raise" and o[1] == "raise" else ("next" if k == "return" else k)
                res.append((kk, St(z.v, o[2], o[3]), o[4]))
            else: res.append((k if k == "raise" else "next", St(z.v, st.env, st.br), v))
        return res, fr

    def s_Try(s, n, st, fr):
        outs = s.block(n.body, [st], fr)
        res = []
        for k, x, v in outs:
            if k == "raise" and n.handlers:
                for h in n.handlers:
                    y = x.put(h.name, UNK) if h.name else x
                    res += s.block(h.body, [y], fr)
                if not any(h.type is None or ast.unparse(h.type) in ("BaseException",) for h in n.handlers): res.append((k, x, v))
            elif k == "next" and n.orelse: res += s.block(n.orelse, [x], fr)
            else: res.append((k, x, v))
        res = list(dict.fromkeys(res))
        if not n.finalbody: return res
        out = []
        for k, x, v in res:
            for k2, y, v2 in s.block(n.finalbody, [x], fr):
                out.append((k, y, v) if k2 == "next" else (k2, y, v2))
        return list(dict.fromkeys(out))

    # ----------------------------------------------------------------- expressions
    def exprs(s, ns, st, fr):
        """side outcomes and list of (state, values)"""
        outs = []; cur = [(st, ())]
        for n in ns:
            nxt = []
            for x, vs in cur:
                o, r = s.expr(n, x, fr)
                outs += o
                nxt += [(y, vs + (v,)) for y, v in r]
            cur = list(dict.fromkeys(nxt))
        return outs, cur

    def pure(s, n, st, fr):
        o, r = s.expr(n, st, fr)
        vs = {v for _, v in r}
        return vs.pop() if len(vs) == 1 else UNK

    def expr(s, n, st, fr):
        if isinstance(n, ast.Constant):
            return [], [(st, ("num", n.value) if isinstance(n.value, int) and not isinstance(n.value, bool) else ("none",) if n.value is None else UNK)]
        if isinstance(n, ast.Name): return [], [(st, st.get(n.id))]
        if isinstance(n, ast.Attribute):
            if s.islevel(n, fr.f): return [], [(st, st.v)]
            u = ast.unparse(n)
            v = st.get(u)
            if v != UNK: return [], [(st, v)]
            o, r = s.expr(n.value, st, fr)
            return o, [(x, UNK) for x, _ in r]
        if isinstance(n, ast.UnaryOp):
            o, r = s.expr(n.operand, st, fr)
            return o, [(x, negn(v) if isinstance(n.op, ast.USub) and v != UNK else UNK) for x, v in r]
        if isinstance(n, ast.IfExp):
            o, r = s.exprs([n.test], st, fr)
            res = []
            none = None
            if isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value is None:
                v = s.pure(n.test.left, st, fr)
                if v == ("none",): none = isinstance(n.test.ops[0], ast.Is)
                elif v != UNK: none = isinstance(n.test.ops[0], ast.IsNot)
            for x, _ in r:
                for val, b in ((True, n.body), (False, n.orelse)):
                    if none is not None and none != val: continue
                    o2, r2 = s.expr(b, x, fr); o += o2; res += r2
            return o, list(dict.fromkeys(res))
        if isinstance(n, (ast.Lambda, ast.GeneratorExp)): return [], [(st, UNK)]
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            o, r = s.exprs([n.value] if n.value is not None else [], st, fr)
            res = []
            for x, v in r:
                if isinstance(n, ast.YieldFrom) and n.value is not None and s.iterwrapped(n.value, fr): x = x.withv(("havoc",)); o.append(("raise", x, n.lineno))
                if fr.onyield is not None:
                    for k, y, vv in fr.onyield(x, v[0] if v else UNK):
                        if k == "next": res.append((y, UNK))
                        else: o.append((k, y, vv))
                    continue
                fr.yields.append((x, n.lineno))
                o.append(("close", x, n.lineno))
                res.append((x.withv(V), UNK))     # the consumer's level at resumption
            return o, res
        if isinstance(n, ast.Call): return s.call(n, st, fr)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
            hav = any(s.iterwrapped(g.iter, fr) for g in n.generators)
            kids = [g.iter for g in n.generators]
            o, r = s.exprs(kids, st, fr)
            inner = [n.elt] if not isinstance(n, ast.DictComp) else [n.key, n.value]
            res = []
            for x, _ in r:
                if hav: x = x.withv(("havoc",)); o.append(("raise", x, n.lineno))
                o2, r2 = s.exprs(inner, x, fr); o += o2
                res += [(y, UNK) for y, _ in r2]
            return o, list(dict.fromkeys(res))
        kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
        o, r = s.exprs(kids, st, fr)
        if isinstance(n, (ast.Subscript, ast.BinOp)): o = o + [("raise", x, n.lineno) for x, _ in r]
        return o, [(x, UNK) for x, _ in r]

    def bind(s, g, call, st, fr):
        """parameter values of a followed call"""
        outs = []; p = {}
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if g.cls and names and names[0] == "self": names = names[1:]
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        for k, d in zip(dn, a.defaults): p[k] = s.pure(d, St(V), Frame(g, None, None))
        for k, x in zip(names, call.args):
            if isinstance(x, ast.Starred): break
            p[k] = s.pure(x, st, fr)
        for k in call.keywords:
            if k.arg: p[k.arg] = s.pure(k.value, st, fr)
        return {k: v for k, v in p.items() if v != UNK}, outs

    def call(s, n, st, fr):
        fn = n.func
        kids = ([fn] if not isinstance(fn, ast.Name) else []) + [x.value if isinstance(x, ast.Starred) else x for x in n.args] + [k.value for k in n.keywords]
        outs, vs = s.exprs(kids, st, fr)
        res = []
        off = 0 if isinstance(fn, ast.Name) else 1
        nm = fn.id if isinstance(fn, ast.Name) else None
        for x, v in vs:
            if nm in ("abs", "int", "max", "float") and len(n.args) == 1 and nm in ("abs", "int"):
                a = v[off]
                res.append((x, a if nm == "int" else absn(a) if a != UNK else UNK)); continue
            if nm == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "verbose" and ast.unparse(n.args[0]).split(".")[-1].lower() == "cddmconfig":
                res.append((x.withv(v[off + 2]), UNK)); continue
            if nm == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "verbose" and ast.unparse(n.args[0]).split(".")[-1].lower() == "cddmconfig":
                res.append((x, x.v)); continue
            if nm is not None and nm == fr.wrapped:
                if fr.wrapgen: res.append((x, UNK))       # creates the generator, runs nothing
                else:
                    h = x.withv(("havoc",)); outs.append(("raise", h, n.lineno)); res.append((h, UNK))
                continue
            if (nm == "next" and n.args and s.iterwrapped(n.args[0], fr)) or (nm in ("list", "tuple", "sum") and n.args and s.iterwrapped(n.args[0], fr)):
                h = x.withv(("havoc",)); outs.append(("raise", h, n.lineno)); res.append((h, UNK)); continue
            g = s.resolve(fn, fr.f)
            if g is not None and id(g.node) in s.touch and not g.isgen:
                e = s.effect(g, n, x, fr)
                for k, y, vv in e:
                    if k == "return":
                        if y.v[0] == "abs" and fr.f.name not in s.EXEMPT: s.loud.append((fr.f, n.lineno, y.v))
                        res.append((St(y.v, x.env, x.br), vv))
                    else: outs.append((k, St(y.v, x.env, x.br), vv))
                continue
            if nm not in ("len", "isinstance", "print", "range", "tuple", "list", "bool", "str", "getattr", "hasattr", "id", "type", "super", "zip", "enumerate"):
                outs.append(("raise", x, n.lineno))
            res.append((x, UNK))
        return list(dict.fromkeys(outs)), list(dict.fromkeys(res))

    def effect(s, g, call, st, fr):
        p, _ = s.bind(g, call, st, fr)
        # functions that are obligations of their own are taken to keep the level
        if s.decorated(g) or s.own(g) or g in s.active: return [("return", st, UNK), ("raise", st, call.lineno)]
        s.active.append(g)
        try: outs, f2 = s.run(g, p, None, st)
        finally: s.active.pop()
        r = []
        leaf = not any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("abs", "int", "max")) for x in ast.walk(g.node))
        for k, y, v in outs:
            if k == "raise" and leaf: continue
            r.append((k, y, v))
        return r

    def decorated(s, f):
        """is f protected by a decorator that restores the level on every exit?"""
        return any(s.protects(s.resolve(d.func if isinstance(d, ast.Call) else d, f), f.isgen) for d in f.node.decorator_list)

    keepnum = False
    EXEMPT = ("set_verbose", "disable_prints", "enable_prints")
    def own(s, f):
        """a root that must keep the level by itself"""
        return id(f.node) in s.touch and not f.encl and f.name not in s.EXEMPT and (f.isgen or not f.name.startswith("_") or f.name.startswith("__"))

    def consumers(s, f):
        return [g for k, g in s.funcs.items() if g is not f and any(isinstance(x, (ast.Name, ast.Attribute)) and s.resolve(x, g) is f for x in ast.walk(g.node))]

    memo = None
    def protects(s, d, gen):
        if d is None: return False
        key = (id(d.node), gen)
        if s.memo is None: s.memo = {}
        if key in s.memo: return s.memo[key]
        s.memo[key] = False
        inner = [x for x in d.node.body if isinstance(x, ast.FunctionDef)]
        ps = [a.arg for a in d.node.args.args]
        r = False
        if len(inner) == 1 and ps:
            w = s.funcs[id(inner[0])]
            r = not s.exits(w, wrapped=ps[0], wrapgen=gen)[0]
            if gen and not w.isgen: r = False
        s.memo[key] = r
        return r

    def exits(s, f, wrapped=None, wrapgen=False):
        """paths on which f leaves the level changed: (list of (kind, line, level)), paths"""
        fr = Frame(f, wrapped, None, wrapgen)
        s.loud = []
        if wrapped:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in (wrapped, "iter"):
                    if x.value.func.id == "iter" and not (x.value.args and (isinstance(x.value.args[0], ast.Name) and x.value.args[0].id in fr.iters or isinstance(x.value.args[0], ast.Call) and getattr(x.value.args[0].func, "id", "") == wrapped)): continue
                    for t in x.targets:
                        if isinstance(t, ast.Name): fr.iters.add(t.id)
        outs = s.block(f.node.body, [St(V)], fr)
        bad = []
        for g, line, v in s.loud: bad.append(("switches output of an outer silenced stage on again:", line, v))
        n = len(outs) + len(fr.yields)
        for x, line in fr.yields:
            if x.v != V: bad.append(("yields to the caller", line, x.v))
        for k, x, v in outs:
            if k == "close": continue
            if x.v != V: bad.append(({"raise": "fails with an exception", "return": "returns", "next": "returns"}.get(k, k), v if isinstance(v, int) else f.node.body[-1].lineno, x.v))
        return list(dict.fromkeys(bad)), n

class Frame:
    def __init__(s, f, wrapped, onyield, wrapgen=False):
        s.f, s.wrapped, s.onyield, s.wrapgen = f, wrapped, onyield, wrapgen
        s.yields = []; s.iters = set()
