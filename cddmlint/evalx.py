"""Expressions, attributes, items and calls."""
import ast
import re
from . import terms as T
from . import lin
from .terms import _mk, NONE, ELLIPSIS, TRUE, FALSE, num, const, Undecided
from .arrays import mkslice, slice_lift, FULL, isint
from .project import FuncObj, ClassObj
from .interp import Interp as _Base, State, Dead, UNBOUND, BOT, BINOPS, CONF

CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
BUILTINS = {"len", "range", "abs", "min", "max", "int", "float", "bool", "tuple", "list", "enumerate", "zip", "iter", "next", "print", "isinstance", "str", "repr",
            "sorted", "reversed", "sum", "round", "getattr", "hasattr", "setattr", "callable", "type", "super", "set", "dict", "any", "all", "map", "filter", "complex",
            "ValueError", "TypeError", "Exception", "RuntimeError", "NotImplementedError", "NameError", "StopIteration", "ImportError", "IndexError", "AttributeError", "KeyError", "DeprecationWarning", "UserWarning",
            "__import__", "object", "slice", "open", "id", "divmod", "GeneratorExit", "BaseException", "AssertionError", "globals", "locals", "vars"}

def isbooltype(v): return v.op == "builtin" and v.args[0] == "bool" or v.op == "ext" and v.args[0] in ("numpy.bool_", "numpy.bool")

def multiples(x, y):
    """x = q*y + r for a product y of symbols, as far as the integer terms of x contain it"""
    if not (x.kind == y.kind == "int") or y.op == "num": return None, x
    py = T.to_poly(y)
    if len(py) != 1: return None, x
    (my, cy), = py.items()
    if cy != T.ONE: return None, x
    q, r = {}, {}
    for m, c in T.to_poly(x).items():
        e = dict(m)
        if c.im == 0 and c.re.denominator == 1 and all(k > 0 and k == int(k) for k in e.values()) and all(e.get(v, 0) >= k for v, k in my):
            for v, k in my: e[v] -= k
            z = T.num(1)
            for v, k in e.items():
                for _ in range(int(k)): z = T.mul(z, v)
            for mm, cc in T.to_poly(z).items(): q[mm] = q.get(mm, T.G(0)) + c * cc if mm in q else c * cc
        else: r[m] = c
    if not q: return None, x
    return T.from_poly(q), T.from_poly(r)

class Interp(_Base):
    def __init__(s, project, config=None):
        super().__init__(project, config)
        s.fstack = []
        s.keep = []
        s.captured = set()
        s.closure_fn = {}
        s.realframes = set()
        s.framecache = {}

    # ------------------------------------------------------------------ evaluation
    def ev(s, n):
        m = getattr(s, "ex_" + type(n).__name__, None)
        if m is None: raise Undecided("expression %s" % type(n).__name__)
        return m(n)

    def evv(s, n): return s.val(s.ev(n))

    def cond(s, n):
        v = s.ev(n)
        return s.truth(v)

    def truth(s, v):
        def f(x):
            if x.op in ("list",): x = s.get((x.args[0], "items"))
            if x.op == "dict": x = s.get((x.args[0], "items"))
            if x.op in ("ref", "view"): x = s.val(x)
            if x.op in ("fn", "cls", "obj", "mod", "ext", "bm", "gen", "wrapfn", "iterobj"): return TRUE
            t = T._boolean(x)
            if t in s.assumed: return TRUE if s.assumed[t] else FALSE
            return t
        r = T.lift(f, v)
        return s.known(r)

    def known(s, c):
        """use facts of the enclosing loops / configuration"""
        if c.op in ("bool",): return c
        if s.assumed:
            for a in T.atoms_of_cond(c):
                if a in s.assumed: c = T.assume(c, a, s.assumed[a])
        at = [a for a in T.atoms_of_cond(c) if a.op in ("lt0", "eq0") and a.args[0].kind == "int"]
        if at and (s.loops or s.rootfacts):
            F = s.facts()
            for a in at:
                p = a.args[0]
                if a.op == "lt0":
                    if lin.entails(F, T.add(p, num(1))): c = T.assume(c, a, True)
                    elif lin.entails(F, T.neg(p)): c = T.assume(c, a, False)
                else:
                    if lin.entails(F, T.add(p, num(1))) or lin.entails(F, T.sub(num(1), p)): c = T.assume(c, a, False)
                    elif lin.entails(F, p) and lin.entails(F, T.neg(p)): c = T.assume(c, a, True)
        return c

    def ex_Constant(s, n):
        return const(n.value)
    def ex_Name(s, n): return s.lookup(n.id)
    def ex_Tuple(s, n): return s.seq(n.elts)
    def seq(s, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = s.ev(e.value)
                sp = s.iterspec(v)
                if sp[0] != "known":
                    return _mk("starseq", tuple(out) + (s.freeze(v),), "any", False)
                out += sp[1]
            else: out.append(s.ev(e))
        return T.tup(*out)
    def ex_List(s, n):
        t = s.seq(n.elts)
        return s.mklist(t)
    def mklist(s, t):
        oid = s.new("l")
        s.set((oid, "items"), t)
        return _mk("list", (oid,), "any", False)
    def ex_Set(s, n): return s.seq(n.elts)
    def ex_Dict(s, n):
        oid = s.new("d")
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = s.ev(v)
                if d.op == "dict": items += list(s.get((d.args[0], "items")).args)
                else: raise Undecided("dict unpack")
            else: items.append(T.tup(s.ev(k), s.ev(v)))
        s.set((oid, "items"), T.tup(*items))
        return _mk("dict", (oid,), "any", False)
    @staticmethod
    def plain(t):
        """python value of a constant, or ..."""
        if t.op == "const" and isinstance(t.args[1], str): return t.args[1]
        if t.op == "num" and t.kind == "int": return T.pyval(t)
        if t is TRUE: return True
        if t is FALSE: return False
        return ...
    def ex_JoinedStr(s, n):
        out = ""
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                try: x = s.plain(s.ev(v.value))
                except Undecided: x = ...
                if x is ... or v.format_spec is not None or v.conversion not in (-1, 115): out = None
                elif out is not None: out += str(x)
            elif out is not None: out += v.value
        return _mk("str", ("f",), "any", True) if out is None else const(out)
    def ex_Lambda(s, n):
        return s.make_function(n, s.stack[-1].mod, s.frame(), s.stack[-1])
    def ex_NamedExpr(s, n):
        v = s.ev(n.value); s.assign(n.target, v); return v
    def ex_Starred(s, n): raise Undecided("starred")
    def ex_Slice(s, n):
        g = lambda x: NONE if x is None else s.toint(s.evv(x))
        return slice_lift(g(n.lower), g(n.upper), g(n.step))
    def toint(s, v): return v
    def ex_UnaryOp(s, n):
        if isinstance(n.op, ast.Not): return T.not_(s.cond(n.operand))
        v = s.evv(n.operand)
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd): return v
        if v.kind == "bool": return s.lnot(v)
        return T.op("invert", v)
    def lnot(s, v):
        return T.op("lnot", v, kind="bool") if not v.scalar else T.not_(v)
    def ex_BoolOp(s, n):
        isand = isinstance(n.op, ast.And)
        def go(vals):
            v = s.ev(vals[0])
            if len(vals) == 1: return v
            c = s.truth(v)
            if isand: return s.fork_eval(c, lambda: go(vals[1:]), lambda: v)
            return s.fork_eval(c, lambda: v, lambda: go(vals[1:]))
        r = go(n.values)
        return r
    def ex_IfExp(s, n):
        c = s.cond(n.test)
        return s.fork_eval(c, lambda: s.ev(n.body), lambda: s.ev(n.orelse))
    def ex_BinOp(s, n):
        a, b = s.ev(n.left), s.ev(n.right)
        o = BINOPS[type(n.op)]
        if a.op in ("list",) or b.op in ("list",):
            if o == "add":
                x = s.get((a.args[0], "items")) if a.op == "list" else a
                y = s.get((b.args[0], "items")) if b.op == "list" else b
                if x.op == "tup" and y.op == "tup": return s.mklist(T.tup(*(x.args + y.args)))
            if o == "mul":
                x = s.get((a.args[0], "items")) if a.op == "list" else a
                if x.op == "tup" and b.op == "num": return s.mklist(T.tup(*(x.args * T.pyval(b))))
                if x.op == "tup": return s.mklist(_mk("repeat", (x, s.val(b)), "any", False))
        if o == "mod" and a.op == "const": 
            xs = [s.plain(x) for x in (b.args if b.op == "tup" else (b,))]
            if isinstance(a.args[1], str) and ... not in xs:
                try: return const(a.args[1] % tuple(xs))
                except Exception: pass
            return _mk("str", ("%",), "any", True)
        return s.binop(o, s.val(a), s.val(b))

    def binop(s, o, a, b):
        return T.lift(lambda x, y: s._binop(o, x, y), a, b)
    def _binop(s, o, a, b):
        lists = a.op == "list" and b.op == "list"
        if a.op in ("list",): a = s.get((a.args[0], "items"))
        if b.op in ("list",): b = s.get((b.args[0], "items"))
        if lists and o == "add" and not (a.op == b.op == "tup"):
            if a.op == "tup" and not a.args: return b
            if b.op == "tup" and not b.args: return a
            if a.op in ("comp", "tup", "np") and b.op in ("comp", "tup", "np"): return s.mklist(s.npfun("concatenate", [T.tup(a, b)], {}))
            return _mk("seqadd", (a, b), "any", False)
        if o == "add" and (a.op == "str" or b.op == "str" or (a.op == "const" and isinstance(a.args[1], str)) or (b.op == "const" and isinstance(b.args[1], str))):
            if a.op == "const" and b.op == "const": return const(a.args[1] + b.args[1])
            return _mk("str", (a, b), "any", True)
        if a.op == "tup" or b.op == "tup":
            if o == "add" and a.op == "tup" and b.op == "tup": return T.tup(*(a.args + b.args))
            if o == "mul" and a.op == "tup" and b.op == "num": return T.tup(*(a.args * T.pyval(b)))
            if o == "mul" and b.op == "tup" and a.op == "num": return T.tup(*(b.args * T.pyval(a)))
            if o in ("add", "mul"): return _mk("seq" + o, (a, b), "any", False)
            if o not in ("eq",): 
                # numpy broadcasting of a tuple operand
                if a.op == "tup" and b.op != "tup": return T.tup(*[s._binop(o, x, b) for x in a.args])
                if b.op == "tup" and a.op != "tup": return T.tup(*[s._binop(o, a, x) for x in b.args])
                if len(a.args) == len(b.args): return T.tup(*[s._binop(o, x, y) for x, y in zip(a.args, b.args)])
        if o == "add" and (a.op in ("seqshape", "path") or b.op in ("seqshape", "path") or self_seq(a) or self_seq(b)): return _mk("seqadd", (a, b), "any", False)
        if NONE in (a, b): raise Undecided("arithmetic on None")
        if o in ("bitand", "bitor", "bitxor"):
            if a.op == "bool" and b.op == "bool" or (a.kind == "bool" and b.kind == "bool" and a.scalar and b.scalar):
                return {"bitand": T.and_, "bitor": T.or_, "bitxor": lambda x, y: T.ite(x, T.not_(y), y)}[o](a, b)
            if o != "bitxor" and a.kind == b.kind == "bool" and not (a.scalar and b.scalar): return T.op("l" + o[3:], *sorted((a, b)), kind="bool")
            if a.op == "num" and b.op == "num":
                x, y = T.pyval(a), T.pyval(b)
                return num({"bitand": x & y, "bitor": x | y, "bitxor": x ^ y}[o])
            if o == "bitor" and a.op in ("bitor",) and b.op == "num" and a.args[1].op == "num": return _mk("bitor", (a.args[0], num(T.pyval(a.args[1]) | T.pyval(b))), a.kind, a.scalar)
            if o == "bitand" and a.kind != "bool" and b.op != "num" and a.op == "num": a, b = b, a
            if o in ("bitand", "bitor") and (a.op == "num" or (b.op != "num" and a.id > b.id)): a, b = b, a
            return _mk(o, (a, b), "bool" if a.kind == b.kind == "bool" else "int" if a.scalar and b.scalar else "any", a.scalar and b.scalar)
        if o == "add": return T._add(a, b)
        if o == "sub": return T.sub(a, b)
        if o == "mul": return T._mul(a, b)
        if o == "div": return T.div(a, b)
        if o == "pow": return T.power(a, b)
        if o == "floordiv": return s.floordiv(a, b)
        if o == "mod": return s.mod(a, b)
        if o == "lshift": return T._mul(a, T.power(num(2), b))
        if o == "rshift": return s.floordiv(a, T.power(num(2), b))
        return T.op(o, a, b)

    def floordiv(s, a, b):
        def f(x, y):
            if x.op == "num" and y.op == "num" and not y.args[0].zero():
                return num(T.pyval(x) // T.pyval(y))
            if y.op == "num" and y.args[0] == T.ONE and x.kind == "int": return x
            if y.op == "num" and y.args[0].im == 0 and y.args[0].re.denominator == 1 and x.kind == "int":
                # pull out multiples:  (k*d + r)//d = k + r//d
                d = int(y.args[0].re); q = {}; r = {}
                for m, c in T.to_poly(x).items():
                    if c.re.denominator != 1: return T.fun("floordiv", x, y, kind="int")
                    k = int(c.re)
                    if k // d and (m == () or k % d == 0): q[m] = T.G(k // d); k = k % d
                    if k: r[m] = T.G(k)
                rr = T.from_poly(r)
                rest = T.fun("floordiv", rr, y, kind="int") if rr.op != "num" else num(T.pyval(rr) // d)
                return T._add(T.from_poly(q), rest)
            k = "int" if x.kind == y.kind == "int" else "any"
            q, r = multiples(x, y)
            if r is not x: return T.add(q, s.floordiv(r, y))
            if x.op == "num" and x.args[0].zero() and k == "int": return x
            return T.fun("floordiv", x, y, kind=k)
        return T.lift(f, a, b)

    def mod(s, a, b):
        def f(x, y):
            if x.op == "num" and y.op == "num" and not y.args[0].zero(): return num(T.pyval(x) % T.pyval(y))
            q, r = multiples(x, y)
            if r.op == "num" and r.args[0].zero(): return r
            if r is not x: return s.mod(r, y)
            return T.fun("mod", x, y, kind="int" if x.kind == y.kind == "int" else "any")
        return T.lift(f, a, b)

    def minmax(s, name, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = T.lift(lambda a, b: s._minmax(name, a, b), r, x)
        return r
    def _minmax(s, name, a, b):
        if a is b: return a
        d = T.sub(a, b)
        if d.op == "num" and d.args[0].im == 0:
            less = d.args[0].re <= 0
            return (a if less else b) if name == "min" else (b if less else a)
        if a.kind == "int" and b.kind == "int":
            F = s.facts()
            if lin.entails(F, d): return a if name == "min" else b
            if lin.entails(F, T.neg(d)): return b if name == "min" else a
        if a.id > b.id: a, b = b, a
        k = a.kind if a.kind == b.kind else T._kmax(a.kind, b.kind)
        return _mk("fun", (name, a, b), k, a.scalar and b.scalar)

    def ex_Compare(s, n):
        left = s.ev(n.left)
        res = TRUE; first = True
        for o, r in zip(n.ops, n.comparators):
            right = s.ev(r)
            c = s.compare(CMP[type(o)], left, right)
            res = c if first else T.and_(res, c)
            first = False
            left = right
        return s.known(res) if res.scalar or res.op == "ite" else res

    def compare(s, o, a, b):
        if o in ("is", "isnot"):
            r = T.lift(s._is, a, b)
            return r if o == "is" else T.not_(r)
        if o in ("in", "notin"):
            r = s.contains(a, b)
            return r if o == "in" else T.not_(r)
        a, b = s.val(a), s.val(b)
        f = {"eq": s.eq, "ne": lambda x, y: T.not_(s.eq(x, y)), "lt": T.lt, "le": T.le, "gt": lambda x, y: T.lt(y, x), "ge": lambda x, y: T.le(y, x)}[o]
        a, b = s.listval(a), s.listval(b)
        return f(a, b)

    def listval(s, a):
        def f(x):
            if x.op == "list": return s.listval(s.get((x.args[0], "items")))
            if x.op == "tup": return T.tup(*[s.val(y) for y in x.args])
            return x
        return T.lift(f, a)

    def eq(s, a, b):
        def f(x, y):
            for u, v in ((x, y), (y, x)):
                if u.op == "const" and isinstance(u.args[1], str):
                    if v.kind in ("int", "real", "cplx", "bool", "tup") or v is NONE: return FALSE
                    if v.op in ("fn", "obj", "list", "dict", "cls"): return FALSE
                if u.op == "dtype" and isbooltype(v) and u.args[0].kind in ("bool", "int", "real", "cplx"): return TRUE if u.args[0].kind == "bool" else FALSE
            return T._eq(x, y)
        return T.lift(f, a, b)

    def _is(s, a, b):
        if a is b: return TRUE
        if NONE in (a, b): return T._isnone(b if a is NONE else a)
        if a.op in ("ref", "obj", "list", "dict") and b.op in ("ref", "obj", "list", "dict"): return FALSE
        return T._eq(a, b)

    def contains(s, a, b):
        a = s.val(a)
        def f(x, c):
            if c.op == "list": c = s.get((c.args[0], "items"))
            if c.op == "dict": c = T.tup(*[i.args[0] for i in s.get((c.args[0], "items")).args])
            if c.op == "tup":
                r = FALSE
                for e in c.args: r = T.or_(r, s.eq(x, s.val(e)))
                return r
            if c.op == "const" and x.op == "const" and isinstance(c.args[1], str): return TRUE if x.args[1] in c.args[1] else FALSE
            if c.op == "range":
                r = T.and_(T.le(c.args[0], x), T.lt(x, c.args[1]))
                return r
            return _mk("contains", (x, s.freeze(c)), "bool", True)
        return T.lift(f, a, b)

    # ------------------------------------------------------------------ comprehension
    def ex_ListComp(s, n):
        r = s.comp(n)
        if r.op == "tup": return s.mklist(r)
        return r
    def ex_GeneratorExp(s, n):
        g = n.generators[0]
        if isinstance(g.iter, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            it = s.ev(g.iter)
            if s.islazy(it) and len(n.generators) == 1:
                # a generator of its own
                f = getattr(n, '_genfn', None)
                if f is None:
                    body = ast.Expr(ast.Yield(n.elt))
                    for t in reversed(g.ifs): body = ast.If(t, [body], [])
                    loop = ast.For(g.target, ast.Name(".0", ast.Load()), [body] if not isinstance(body, list) else body, [])
                    f = ast.FunctionDef("<genexpr>", ast.arguments([], [ast.arg(".0")], None, [], [], None, []), [loop], [])
                    ast.copy_location(f, n); ast.fix_missing_locations(f)
                    n._genfn = f
                fo = s.make_function(f, s.stack[-1].mod, s.frame(), s.stack[-1])
                return s.call(fo, [it], {})
            g = ast.comprehension(ast.Name(".it", ast.Load()), None, g.ifs, g.is_async)
            fr = s.frame()
            old = s.st.d.get((fr, ".it"))
            s.st.d[(fr, ".it")] = it
            m = ast.GeneratorExp(n.elt, [ast.comprehension(n.generators[0].target, ast.copy_location(ast.Name(".it", ast.Load()), n), n.generators[0].ifs, 0)] + n.generators[1:])
            ast.copy_location(m, n)
            try: return s.comp(m)
            finally:
                if old is None: s.st.d.pop((fr, ".it"), None)
                else: s.st.d[(fr, ".it")] = old
        return s.comp(n)
    def ex_SetComp(s, n): return T.op("set", s.freeze(s.comp(n)))
    def ex_DictComp(s, n):
        pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        m = ast.ListComp(elt=pair, generators=n.generators)
        ast.copy_location(m, n); ast.fix_missing_locations(m)
        r = s.comp(m)
        if r.op != "tup": return T.op("dictcomp", r)
        oid = s.new("d"); s.set((oid, "items"), r)
        return _mk("dict", (oid,), "any", False)

    def comp(s, n):
        fr = s.frame()
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name): names.add(x.id)
        saved = {k: s.st.d.get((fr, k)) for k in names}
        try:
            return s.comp_gen(n.elt, n.generators)
        finally:
            for k, v in saved.items():
                if v is None: s.st.d.pop((fr, k), None)
                else: s.st.d[(fr, k)] = v

    def comp_gen(s, elt, gens):
        if not gens: return T.tup(s.ev(elt))
        g = gens[0]
        it = s.ev(g.iter)
        if s.islazy(it):
            out = []
            if len(gens) > 1: raise Undecided("nested comprehension over a generator")
            key = (s.new("l"), "items")
            s.set(key, T.tup())
            def body(st):
                s.st = st
                c = TRUE
                for t in g.ifs: c = T.and_(c, s.cond(t))
                c = T.restrict(c, s.st.pc)
                if c is FALSE: return [("next", s.st, None)]
                if c is not TRUE and not isinstance(elt, ast.Name) or len(s.loops) != n0: raise Undecided("filtered comprehension")
                v = s.ev(elt)
                s.set(key, T.lift(lambda cur: T.ite(c, T.tup(*(cur.args + (T.restrict(v, c),))), cur), s.get(key)))
                return [("next", s.st, None)]
            n0 = len(s.loops)
            s.absorb(s.iterate(it, lambda v: s.assign(g.target, v), body))
            return s.get(key)
        sp = s.iterspec(it)
        if sp[0] == "sym" and sp[1].op == "num" and 0 <= T.pyval(sp[1]) <= 64:
            sp = ("known", [sp[2](num(i)) for i in range(T.pyval(sp[1]))])
        if sp[0] == "known":
            res = T.tup()
            for e in sp[1]:
                s.assign(g.target, e)
                c = TRUE
                for t in g.ifs: c = T.and_(c, s.cond(t))
                c = T.restrict(c, s.st.pc)
                if c is FALSE: continue
                if c is not TRUE and (not isinstance(elt, ast.Name) or gens[1:]): raise Undecided("filtered comprehension")
                r = s.comp_gen(elt, gens[1:])
                if r.op != "tup": raise Undecided("nested comprehension")
                res = T.lift(lambda cur: T.ite(c, T.tup(*(cur.args + tuple(T.restrict(x, c) for x in r.args))), cur), res)
            return res
        N, el = sp[1], sp[2]
        if len(gens) > 1: raise Undecided("nested symbolic comprehension")
        i = T.iv(len(s.loops))
        from .interp import Loop
        s.loops.append(Loop(i, N))
        try:
            s.assign(g.target, el(i))
            c = TRUE
            for t in g.ifs: c = T.and_(c, s.cond(t))
            v = s.freeze(s.ev(elt)) if c is TRUE else s.fork_eval(c, lambda: s.freeze(s.ev(elt)), lambda: NONE)
        finally: s.loops.pop()
        return s.mkcomp(N, v, c, i)

    def mkcomp(s, N, v, c, i):
        """[v(i) for i in range(N) if c(i)]"""
        # identity mapping
        if c is TRUE and v.op == "idx" and v.args[1] == (i,) and i not in v.args[0].fv and s.length(v.args[0]) is N: return v.args[0]
        h = s.height(v, c)
        b = T.bv(h)
        return _mk("comp", (N, T.subst(v, {i: b}, s.rebuild), T.subst(c, {i: b}, s.rebuild), b), "any", False)

    # ------------------------------------------------------------------ values
    def val(s, t):
        """array content of references (snapshot)"""
        if t.op in ("num", "sym", "poly", "const", "bool", "fun", "conj", "idx"): return t
        def f(x):
            if x.op == "ref": return s.get((x.args[0], "content"))
            if x.op == "view":
                c = s.val(x.args[0])
                for p in x.args[1]: c = s.apply_lens(c, p)
                return c
            return x
        return T.lift(f, t)

    def apply_lens(s, c, p):
        if p[0] == "idx": return s.idx(c, p[1])
        return s.lens_read(c, p)

    def freeze(s, t, depth=0):
        """value without references to mutable cells"""
        if depth > 8: return t
        def f(x):
            if x.op in ("ref", "view"): return s.freeze(s.val(x), depth + 1)
            if x.op == "list": return s.freeze(s.get((x.args[0], "items")), depth + 1)
            if x.op == "tup": return T.tup(*[s.freeze(y, depth + 1) for y in x.args])
            if x.op == "dict":
                it = s.get((x.args[0], "items"))
                return _mk("dictval", (s.freeze(it, depth + 1),), "any", False)
            if x.op == "comp" : return x
            return x
        return T.lift(f, t)

    def newref(s, content, shape=None, dtype=None):
        oid = s.new("b")
        s.set((oid, "content"), content)
        if shape is not None: s.set((oid, "shape"), shape)
        if dtype is not None: s.set((oid, "dtype"), dtype)
        return _mk("ref", (oid,), content.kind if content.kind in ("int", "real", "cplx") else "any", False)

    def view(s, r, lens):
        """view of a reference"""
        if lens[0] == "idx":
            path = s.norm_path(lens[1])
            if not path: return r
            lens = ("idx", path)
        if r.op == "view":
            last = r.args[1][-1]
            if lens[0] == last[0] == "transpose" and len(lens[1]) == len(last[1]) and NONE not in lens[1]:
                q = [last[1][T.pyval(i)] for i in lens[1]]
                rest = r.args[1][:-1]
                if [T.pyval(i) for i in q] != list(range(len(q))): rest = rest + (("transpose", tuple(q)),)
                return _mk("view", (r.args[0], rest), "any", False) if rest else r.args[0]
            if lens[0] == "idx" and last[0] == "idx":
                c = s._compose(last[1], lens[1], r.args[0])
                if c is not None:
                    c = s.norm_path(c)
                    if len(r.args[1]) > 1: return _mk("view", (r.args[0], r.args[1][:-1] + (("idx", c),)), "any", False)
                    return _mk("view", (r.args[0], (("idx", c),)), "any", False)
            return _mk("view", (r.args[0], r.args[1] + (lens,)), "any", False)
        return _mk("view", (r, (lens,)), "any", False)

    # ------------------------------------------------------------------ items
    def ev_path(s, n):
        if isinstance(n, ast.Tuple): return tuple(s.ev_index(e) for e in n.elts)
        v = s.ev_index(n)
        if v.op == "tup": return v.args
        if v.op == "list":
            it = s.get((v.args[0], "items"))
            if it.op == "tup" and any(x.op == "slice" for x in it.args): return it.args
        return (v,)
    def ev_index(s, n):
        v = s.ev(n)
        if v.op in ("ref", "view"): v = s.val(v)
        return v

    def ex_Subscript(s, n):
        o = s.ev(n.value)
        path = s.ev_path(n.slice)
        return s.getitem(o, path)

    def getitem(s, o, path):
        if o.op == "ite" and all(T.isnumeric(x) and x.op not in ("ref", "view", "list", "dict") for x in T.leaves(o)) and any(s.arraycond(c) for c in T.atoms_of_cond(o)): return s.idx(o, path)
        if o.op == "ite": return T.lift(lambda x: s.getitem(x, path), o)
        if any(s.maskpath(p) for p in path): return s.idx(s.val(o), path)
        if any(p.op == "ite" for p in path) and o.op not in ("ref", "view"):
            return T.lift(lambda *p: s.getitem(o, p), *path)
        if any(p.op == "tup" for p in path) and len(path) == 1 and o.op != "tup": path = path[0].args
        if o.op in ("ref", "view"):
            path = tuple(s.listval(p) if p.op == "list" else p for p in path)
            c = s.get((o.args[0], "content")) if o.op == "ref" else None
            if c is not None and c.op == "tup" and len(path) == 1 and path[0].op == "num": return s.idx(c, path)
            if any(not (isint(p) or p.op == "slice" or p in (NONE, ELLIPSIS)) and p.kind not in ("int",) for p in path):
                # advanced indexing copies
                return s.idx(s.val(o), path)
            r = s.view(o, ("idx", path))
            return s.scalar_read(r)
        if o.op == "list":
            items = s.get((o.args[0], "items"))
            r = s.getitem(items, path)
            if len(path) == 1 and path[0].op == "slice" and r.op == "tup": return s.mklist(r)
            return r
        if o.op == "dict":
            items = s.get((o.args[0], "items"))
            if items.op == "tup":
                k = path[0] if len(path) == 1 else T.tup(*path)
                r = None
                conds = []
                found = FALSE
                res = UNBOUND
                for it in reversed(items.args):
                    c = s.eq(it.args[0], k)
                    res = T.ite(c, it.args[1], res)
                    found = T.or_(found, c)
                miss = T.not_(found)
                if miss is TRUE:
                    s.split_raise(TRUE, "KeyError")
                if miss is not FALSE:
                    s.split_raise(miss, "KeyError")
                    res = T.restrict(res, s.st.pc)
                return res
            return T.op("getitem", s.freeze(o), T.tup(*path))
        if o.op == "tup":
            if len(path) == 1 and path[0].op == "num":
                i = T.pyval(path[0])
                if not -len(o.args) <= i < len(o.args):
                    s.split_raise(TRUE, "IndexError")
            return s.idx(o, path)
        if o.op == "comp" and len(path) == 1 and path[0].op == "slice":
            return s.idx(o, path)
        if o.op == "obj":
            m = s.obj_method(o, "__getitem__")
            if m is not None: return s.call(m, [path[0] if len(path) == 1 else T.tup(*path)], {})
        path = tuple(s.freeze(p) for p in path)
        if o.op == "ext" and o.args[0] == "sys.modules" and path[0].op == "const": return s.module_term(path[0].args[1])
        if o.op == "modvars" and path[0].op == "const":
            v = s.module_name(s.P.resolve_module(o.args[0]), path[0].args[1])
            if v is None: s.split_raise(TRUE, "KeyError")
            return v
        if o is CONF and path[0].op == "const": return s.getattr(o, path[0].args[1])
        return s.idx(o, path)

    def scalar_read(s, v):
        """a view addressed by plain integers of a fully known rank is a scalar"""
        if v.op != "view": return v
        r = v.args[0]
        if len(v.args[1]) == 1 and v.args[1][0][0] == "idx":
            sh = s.get((r.args[0], "shape")) if r.op == "ref" else None
            path = v.args[1][0][1]
            if all(isint(p) for p in path):
                nd = None
                if sh is not None and sh.op == "tup": nd = len(sh.args)
                else:
                    c = s.val(r)
                    nd = s.ndim_of(c)
                if nd is not None and len(path) == nd: return s.val(v)
        return v

    def setitem(s, o, path, v, target=None, aug=None, operand=None):
        if o.op == "ite":
            c = T.ite(o.args[0], TRUE, FALSE)
            s.fork_eval(c, lambda: s.setitem(o.args[1], path, v) or NONE, lambda: s.setitem(o.args[2], path, v) or NONE)
            return
        if len(path) == 1 and path[0].op == "tup": path = path[0].args
        if o.op == "list":
            items = s.get((o.args[0], "items"))
            s.set((o.args[0], "items"), s.mkstore(items, path, v))
            return
        if o.op == "dict":
            items = s.get((o.args[0], "items"))
            k = path[0] if len(path) == 1 else T.tup(*path)
            s.event("dictstore", o, k, s.freeze(v))
            if items.op == "tup":
                out = []; done = False
                for it in items.args:
                    c = s.eq(it.args[0], k)
                    if c is TRUE: out.append(T.tup(k, v)); done = True
                    else: out.append(it)
                if not done: out.append(T.tup(k, v))
                s.set((o.args[0], "items"), T.tup(*out))
            return
        if o.op in ("ref", "view"):
            path = tuple(s.freeze(p) for p in path)
            s.store_into(o, path, s.val(v), aug=aug, operand=operand)
            return
        if o.op == "obj":
            m = s.obj_method(o, "__setitem__")
            if m is not None: s.call(m, [path[0] if len(path) == 1 else T.tup(*path), v], {}); return
        # a computed (unnamed) array: becomes a tracked buffer of the variables that hold it
        r = s.rebind(o)
        if r is not None:
            s.store_into(r, tuple(s.freeze(p) for p in path), s.val(v), aug=aug, operand=operand)
            return
        s.event("extstore", s.freeze(o), T.tup(*[s.freeze(p) for p in path]), s.freeze(v))

    def rebind(s, o):
        """make a computed array value an object of its own, for the variables and attributes that hold it"""
        if o.op in ("sym", "tup", "const", "num", "bool", "ref", "view", "obj", "fn", "cls", "list", "dict", "comp", "special") or o.scalar: return None
        keys = [k for k, v in s.st.d.items() if v is o and k[1] not in ("content", "items", "shape", "dtype")]
        if not keys: return None
        r = s.newref(o)
        for k in keys: s.set(k, r)
        return r

    def store_into(s, o, path, v, aug=None, operand=None):
        """o[path] = v for references, views and gated references"""
        if o.op == "ite":
            c = T.ite(o.args[0], TRUE, FALSE)
            s.fork_eval(c, lambda: s.store_into(o.args[1], path, v, aug, operand) or NONE, lambda: s.store_into(o.args[2], path, v, aug, operand) or NONE)
            return
        if o.op == "view":
            base, lenses = o.args
        elif o.op == "ref": base, lenses = o, ()
        else:
            r = s.rebind(o)
            if r is not None: return s.store_into(r, path, v, aug, operand)
            s.event("inplace", s.freeze(o), v)
            return
        if path: 
            vw = s.view(o, ("idx", path))
            base, lenses = (vw.args if vw.op == "view" else (vw, ()))
        if base.op != "ref":
            s.event("inplace", s.freeze(base), v); return
        oid = base.args[0]
        c = s.get((oid, "content"))
        def put(c, ls):
            if not ls: return T.lift(s.wholestore, c, v) if s.peel else v
            l = ls[0]
            if len(ls) == 1 and l[0] == "idx": return s.mkstore(c, l[1], v)
            inner = put(s.apply_lens(c, l), ls[1:])
            if l[0] == "idx": return s.mkstore(c, l[1], inner)
            return s.lens_write(c, l, inner)
        s.event("store", base, T.tup(*[T.tup(const(l[0]), T.tup(*[x if isinstance(x, T.Term) else const(str(x)) for x in l[1]])) for l in lenses]), v, const(aug or ""), operand if operand is not None else NONE, c)
        nv = put(c, list(lenses))
        s.set((oid, "content"), nv)
        s.note_shape(oid, nv)
        s.set((oid, "dirty"), TRUE)

    def note_shape(s, oid, nv):
        """remember the allocated shape of array contents that do not tell their own"""
        sh = s.get((oid, "shape"))
        if sh is None or sh.op != "tup": return
        for x in T.leaves(nv):
            if x.op not in ("store", "gu"): continue
            b = x
            while b.op == "store": b = b.args[0]
            if b.op not in ("empty", "num", "special", "bool") and x.op == "store": continue
            if x in s.shapes:
                if s.shapes[x] != tuple(sh.args): s.ambig.add(x); del s.shapes[x]
            elif x not in s.ambig: s.shapes[x] = tuple(sh.args)

    # ------------------------------------------------------------------ assignment
    def assign(s, t, v):
        if isinstance(t, ast.Name): s.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)): s.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute): s.setattr(s.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = s.ev(t.value)
            s.setitem(o, s.ev_path(t.slice), v, target=t.value)
        elif isinstance(t, ast.Starred): s.assign(t.value, s.mklist(v) if v.op == "tup" else v)
        else: raise Undecided("assignment target")

    def unpack(s, elts, v):
        if v.op == "list": v = s.get((v.args[0], "items"))
        n = len(elts)
        if v.op == "ite":
            # gate every element
            outs = []
            leafs = T.leaves(v)
            bad = T.lift(lambda x: TRUE if s.bad_unpack(x, n) else FALSE, v)
            if bad is not FALSE:
                s.split_raise(bad, "ValueError", ev=True)
                v = T.restrict(v, s.st.pc)
            for k, e in enumerate(elts):
                s.assign(e, T.lift(lambda x: s.unpack_elem(x, k, n), v))
            return
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == "tup":
            if star:
                k = star[0]; m = len(v.args) - (n - 1)
                vals = list(v.args[:k]) + [T.tup(*v.args[k:k + m])] + list(v.args[k + m:])
            else:
                if len(v.args) != n:
                    s.split_raise(TRUE, "ValueError")
                vals = v.args
            for e, x in zip(elts, vals): s.assign(e, x)
            return
        if s.bad_unpack(v, n): s.split_raise(TRUE, "ValueError" if v is not NONE else "TypeError")
        if v.op == "gen": raise Undecided("unpacking a generator")
        sh = s.shape_of(v) if v.op != "ite" else None
        known = None
        if sh is not None and sh.op == "tup":
            F = s.facts(); L = sh.args[0] if sh.args else num(-1)
            if lin.entails(F, T.add(T.sub(L, num(n)), num(1))) or lin.entails(F, T.add(T.sub(num(n), L), num(1))): known = True
            elif L is num(n): known = False
        if known is True: s.split_raise(TRUE, "ValueError")
        elif known is None: s.maybe_raise(_mk("unpackfails", (s.freeze(v), n), "bool", True), "unpack")
        for k, e in enumerate(elts): s.assign(e, s.unpack_elem(v, k, n))

    def bad_unpack(s, x, n):
        if x.op == "list": x = s.get((x.args[0], "items"))
        if x.op == "tup": return len(x.args) != n
        return x.op in ("num", "bool", "obj", "fn") or x is NONE or (x.scalar and x.kind in ("int", "real", "cplx"))

    def unpack_elem(s, x, k, n):
        if x.op == "list": x = s.get((x.args[0], "items"))
        if x.op == "tup": return x.args[k] if k < len(x.args) else UNBOUND
        if x is NONE or x is UNBOUND: return UNBOUND
        return s.getitem(x, (num(k),))

    # ------------------------------------------------------------------ attributes
    def ex_Attribute(s, n):
        return s.getattr(s.ev(n.value), n.attr)

    def getattr(s, o, name):
        if o.op == "ite":
            return T.lift(lambda x: s.getattr1(x, name), o)
        return s.getattr1(o, name)

    def getattr1(s, o, name):
        if o.op == "mod":
            m = s.P.resolve_module(o.args[0])
            if m is not None:
                v = s.module_name(m, name)
                if v is not None: return v
                if s.P.resolve_module(o.args[0] + "." + name): return s.module_term(o.args[0] + "." + name)
                return T.sym("%s.%s" % (o.args[0], name), "any", True)
            return s.ext(o.args[0] + "." + name)
        if o.op == "ext": return s.ext(o.args[0] + "." + name)
        if o.op == "obj":
            oid, c = o.args
            v = s.get((oid, name))
            if v is not None: return s.check_bound(v, name)
            m = s.cls_attr(c, name)
            if m is None:
                if s.has_foreign_base(c): return T.op("attr", o, const(name), lifted=False)
                if name == "__class__": return _mk("cls", (c,), "any", True)
                s.split_raise(TRUE, "AttributeError")
            if isinstance(m, FuncObj):
                if m.kind == "property": return s.call_function(m, [o], {})
                if m.kind == "static": return _mk("fn", (m,), "any", True)
                return _mk("bm", (_mk("fn", (m,), "any", True), o), "any", True)
            return m
        if o.op == "cls":
            c = o.args[0]
            m = s.cls_attr(c, name)
            if isinstance(m, FuncObj): return _mk("fn", (m,), "any", True)
            if m is not None: return m
            return T.op("attr", o, const(name), lifted=False)
        if o.op == "super":
            c, self_ = o.args
            for x in s.mro(self_.args[1])[s.mro(self_.args[1]).index(c) + 1:]:
                if name in x.methods: return _mk("bm", (_mk("fn", (x.methods[name],), "any", True), self_), "any", True)
            return _mk("ext", ("super." + name,), "any", True)
        v = s.get((o, name)) if o.op in ("sym", "attr", "call", "pycall") else None
        if v is not None: return v
        if o is CONF: return s.conf[name] if name in s.conf else T.sym("conf." + name, "any", True)
        if name in ("contiguous", "c_contiguous") and "contiguous" in s.assumed: return TRUE if s.assumed["contiguous"] else FALSE
        return s.np_attr(o, name)

    def setattr(s, o, name, v):
        if o.op == "ite":
            c = T.ite(o.args[0], TRUE, FALSE)
            s.fork_eval(c, lambda: s.setattr(o.args[1], name, v) or NONE, lambda: s.setattr(o.args[2], name, v) or NONE)
            return
        if o.op == "obj":
            oid, c = o.args
            m, _ = s.find_method(c, name + ".setter")
            if m is not None: s.call_function(m, [o, v], {}); return
            s.event("setattr", o, const(name), s.freeze(v))
            s.set((oid, name), v)
            return
        if o.op in ("ref", "view"):
            if name == "shape":
                raise Undecided("in-place reshape")
            s.store_into(s.getattr(o, name), (), s.val(v)); return
        if o.op == "mod":
            s.event("setglobal", const(o.args[0] + "." + name), s.freeze(v))
            s.set((("m", o.args[0]), name), v); return
        s.event("setattr", s.freeze(o), const(name), s.freeze(v))
        if o.op in ("sym", "attr", "call", "pycall"): s.set((o, name), v)
        elif o.op == "cls": s.set((("c", o.args[0].mod.name + "." + o.args[0].name), name), v)

    # ------------------------------------------------------------------ calls
    def ex_Call(s, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = s.frame()
            f = s.stack[-1]
            slf = s.lookup(f.node.args.args[0].arg)
            return _mk("super", (f.owner, slf), "any", True)
        f = s.ev(n.func)
        args = []; kwargs = {}
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = s.ev(a.value)
                if v.op == "list": v = s.get((v.args[0], "items"))
                if v.op == "tup": args += list(v.args)
                else:
                    sp = None
                    try:
                        sp = s.iterspec(v)
                    except Undecided: pass
                    if sp is not None and sp[0] == "known": args += sp[1]
                    else: args.append(_mk("stararg", (s.freeze(v),), "any", False))
            else: args.append(s.ev(a))
        for k in n.keywords:
            v = s.ev(k.value)
            if k.arg is None:
                if v.op == "dict":
                    it = s.get((v.args[0], "items"))
                    for p in it.args:
                        if p.args[0].op != "const": raise Undecided("** key")
                        kwargs[p.args[0].args[1]] = p.args[1]
                else: kwargs["**"] = v
            else: kwargs[k.arg] = v
        return s.call(f, args, kwargs, n)

    def call(s, f, args, kwargs, node=None):
        if f.op == "ite":
            c = T.ite(f.args[0], TRUE, FALSE)
            return s.fork_eval(c, lambda: s.call(f.args[1], args, kwargs, node), lambda: s.call(f.args[2], args, kwargs, node))
        if f.op == "fn": return s.call_function(f.args[0], args, kwargs, node)
        if f.op == "bm":
            return s.call(f.args[0], [f.args[1]] + args, kwargs, node)
        if f.op == "cls": return s.instantiate(f.args[0], args, kwargs)
        if f.op == "builtin": return s.call_builtin(f.args[0], args, kwargs, node)
        if f.op == "ext": return s.call_ext(f.args[0], args, kwargs, node)
        if f.op == "meth": return s.call_method(f.args[0], f.args[1], args, kwargs, node)
        if f.op == "obj":
            m = s.obj_method(f, "__call__")
            if m is not None: return s.call(m, args, kwargs, node)
        if f is UNBOUND: raise Dead()
        if f.op == "sym" and f.args[0] in ("cddm.conf.C", "cddm.conf.F", "cddm.conf.I64", "cddm.conf.I", "cddm.conf.U") and len(args) == 1: return s.val(args[0])
        return s.opaque_call(s.freeze(f), args, kwargs)

    def opaque_call(s, f, args, kwargs):
        a = tuple(s.freeze(x) for x in args)
        k = tuple((n, s.freeze(v)) for n, v in sorted(kwargs.items()))
        s.event("call", f, T.tup(*a), T.tup(*[T.tup(const(n), v) for n, v in k]))
        return _mk("pycall", (f, a, k), "any", False)

    def obj_method(s, o, name):
        m = s.cls_attr(o.args[1], name)
        if isinstance(m, FuncObj): return _mk("bm", (_mk("fn", (m,), "any", True), o), "any", True)
        return None

    def instantiate(s, c, args, kwargs):
        oid = s.new("o")
        o = _mk("obj", (oid, c), "any", True); s.objcls[oid] = c
        m = s.cls_attr(c, "__init__")
        s.event("new", o)
        if isinstance(m, FuncObj): s.call_function(m, [o] + args, kwargs)
        elif args or kwargs:
            s.set((oid, "!args"), T.tup(*[s.freeze(x) for x in args]))
        return o

    def bind(s, fo, args, kwargs):
        """parameters -> argument terms (None for a missing one)"""
        a = fo.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for nme in pos:
            if args: out[nme] = args.pop(0)
        if args:
            if a.vararg: out[a.vararg.arg] = T.tup(*args)
            else: return None, "too many arguments"
        elif a.vararg: out[a.vararg.arg] = T.tup()
        extra = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in out: return None, "duplicate argument %s" % k
                out[k] = v
            elif a.kwarg: extra.append((k, v))
            else: return None, "unexpected argument %s" % k
        if a.kwarg:
            oid = s.new("d")
            s.set((oid, "items"), T.tup(*[T.tup(const(k), v) for k, v in extra]))
            out[a.kwarg.arg] = _mk("dict", (oid,), "any", False)
        dk = ("d", id(fo.node), fo.closure)
        for nm, d in s.default_nodes(a):
            if nm not in out:
                v = s.get((dk, nm))
                if v is None: v = s.eval_default(fo, d)
                out[nm] = v
        for nme in pos + [x.arg for x in a.kwonlyargs]:
            if nme not in out: return None, "missing argument %s" % nme
        return out, None

    def eval_default(s, fo, d):
        saved = (s.stack, s.fstack)
        s.stack, s.fstack = s.stack + [s.modfn(fo.mod)], s.fstack + [("m", fo.mod.name)]
        try: return s.ev(d)
        finally: s.stack, s.fstack = saved

    def call_function(s, fo, args, kwargs, node=None):
        q = fo.qual
        h = s.hooks.get(q)
        if h is not None:
            if h == "noop": return NONE
            r = h(s, fo, args, kwargs)
            if r is not None: return r
        if fo.kind == "gu": return s.call_gu(fo, args, kwargs)
        if fo.kind == "vec": return s.call_vec(fo, args, kwargs)
        if fo.kind == "classm": pass
        if q in s.opaque:
            return s.opaque_call(_mk("repofn", (q,), "any", True), args, kwargs)
        if any(x.op == "stararg" for x in args) or "**" in kwargs:
            return s.opaque_call(_mk("repofn", (q,), "any", True), args, kwargs)
        if sum(1 for f in s.stack if f is fo) >= 3: raise Undecided("recursion in %s" % q)
        if len(s.stack) > s.MAXDEPTH: raise Undecided("call depth")
        b, err = s.bind(fo, args, kwargs)
        if b is None:
            s.event("badcall", const(q), const(err), node=node)
            s.split_raise(TRUE, "TypeError")
        s.event("enter", const(q), *[T.tup(const(k), v) for k, v in b.items()])
        fr = s.new("f")
        s.realframes.add(fr)
        for k, v in b.items(): s.set((fr, k), v)
        if fo.isgen:
            s.captured.add(fr)
            return _mk("gen", (fo, fr), "any", False)
        return s.run_body(fo, fr)

    def run_body(s, fo, fr):
        s.visited.add(fo)
        st = s.st
        s.enter(fo, fr)
        hs = s.yield_handlers
        s.yield_handlers = []
        cur = s.cur
        try:
            if isinstance(fo.node, ast.Lambda):
                v = s.ev(fo.node.body)
                return v
            outs = s.exec_block(fo.node.body, st)
        finally:
            s.leave(); s.yield_handlers = hs; s.cur = cur
        ret = None; val = None
        for k, sx, v in outs:
            if k in ("next", "return"):
                v = NONE if k == "next" else v
                if ret is None: ret, val = sx, v
                else:
                    care = T.or_(ret.pc, sx.pc); gate = T.restrict(ret.pc, care)
                    val = T.ite(gate, val, v)
                    ret = s.merge(ret, sx)
            else:
                s.side.append((k, sx, v))
        if ret is None: raise Dead()
        st.d, st.pc = ret.d, ret.pc
        s.st = st
        if fr not in s.captured:
            for k in [k for k in st.d if k[0] == fr]: del st.d[k]
        return val

    # vectorised kernels ---------------------------------------------------
    def call_vec(s, fo, args, kwargs):
        np_ = len(fo.node.args.args)
        out = kwargs.get("out")
        if len(args) > np_: out = args[np_]; args = args[:np_]
        args = [s.val(a) for a in args]
        args = [s.listval(a) for a in args]
        fr = s.new("f")
        s.realframes.add(fr)
        for p, a in zip(fo.node.args.args, args): s.set((fr, p.arg), a)
        if len(args) < np_:
            raise Undecided("vectorised kernel called with missing arguments")
        s.event("vec", const(fo.qual), T.tup(*args))
        v = s.run_body(fo, fr)
        if out is not None and out is not NONE:
            def put(o):
                if o is NONE: return v
                s.store_into(o, (), v); return o
            if out.op == "ite":
                c = T.isnone(out)
                return s.fork_eval(c, lambda: v, lambda: put(T.restrict(out, s.st.pc)))
            if out.op in ("ref", "view"): return put(out)
            n = s.rebind(out)
            if n is not None: return put(n)
            c = T.isnone(out)
            s.event("inplace", s.freeze(out), v)
            return T.ite(c, v, out)
        return v

    def call_gu(s, fo, args, kwargs):
        s.visited.add(fo)
        names = [a.arg for a in fo.node.args.args]
        # number of outputs from the layout
        lay = (fo.layout or "").replace(" ", "")
        s.gulayout[s.kernel_term(fo)] = lay
        ins, outs = lay.split("->")
        nin, nout = ins.count("("), outs.count("(")
        a = list(args)
        for k in names[len(a):]:
            if k in kwargs: a.append(kwargs[k])
        if "out" in kwargs and len(a) <= nin: a.append(kwargs["out"])
        vin = [s.listval(s.val(x)) for x in a[:nin]]
        vout = a[nin:]
        kern = s.kernel_term(fo)
        if fo.qual in s.inline:
            r = s.inline_gu(fo, names, ins, outs, vin, vout, nin, nout)
            if r is not None: return r
        s.event("gu", const(fo.qual), T.tup(*vin), T.tup(*vout), T.tup(*[s.shape_of(o) if o.op in ("ref", "view") else NONE for o in vout]))
        res = []
        for k in range(nout):
            o = vout[k] if k < len(vout) else None
            if o is not None and o.op == "tup" : o = o.args[k]
            prev = s.val(o) if o is not None and o is not NONE else NONE
            v = T.lift(lambda pv, *xs: _mk("gu", (kern, num(k), xs, pv), "any", False), prev, *vin)
            if o is None or o is NONE:
                res.append(v)
            else:
                if o.op in ("ref", "view", "ite"): s.store_gu(o, v); res.append(o)
                else:
                    n = s.rebind(o)
                    if n is not None: s.store_gu(n, v); res.append(n)
                    else: s.event("inplace", s.freeze(o), v); res.append(v)
        return res[0] if nout == 1 else T.tup(*res)

    inline = frozenset()
    def inline_gu(s, fo, names, ins, outs, vin, vout, nin, nout):
        """body of a kernel applied to single cores (no loop dimensions); None when the shapes are not known"""
        core = lambda x: [[d for d in g.split(",") if d] for g in re.findall(r"\(([^)]*)\)", x)]
        ci, co = core(ins), core(outs)
        dims = {}
        for x, g in zip(vin, ci):
            sh = () if x.scalar else s.shape_terms(x)
            if sh is None or len(sh) != len(g): return None
            for d, n in zip(g, sh): dims.setdefault(d, n)
        rets, tmp = [], []
        for k, g in enumerate(co):
            if any(d not in dims for d in g): return None
            o = vout[k] if k < len(vout) else None
            if o is not None and o.op == "tup": o = o.args[k]
            sh = T.tup(*[dims[d] for d in g])
            c = _mk("empty", (sh,), "any", False) if o is None or o is NONE else s.val(o)
            tmp.append(s.newref(c, sh, NONE))
            rets.append(o)
        fr = s.new("f")
        s.realframes.add(fr)
        argv = [s.newref(x, T.tup(*[dims[d] for d in g]), NONE) if g else x for x, g in zip(vin, ci)] + tmp
        for p, v in zip(names, argv): s.set((fr, p), v)
        s.run_body(fo, fr)
        res = []
        for o, t in zip(rets, tmp):
            if o is None or o is NONE: res.append(t); continue
            v = s.val(t)
            if o.op in ("ref", "view", "ite"): s.store_gu(o, v); res.append(o)
            else: return None
        return res[0] if nout == 1 else T.tup(*res)

    def store_gu(s, o, v):
        if o.op == "ite" and any(l is NONE for l in T.leaves(o)):
            return
        s.store_into(o, (), v)

    def kernel_term(s, fo):
        """identity of a compiled kernel: its role when known, else its qualified name"""
        r = s.roles.get(fo.qual) if s.roles else None
        return const("kernel:" + (r or fo.qual))
    roles = None

    # ------------------------------------------------------------------ rebuild for substitution
    def rebuild(s, t, args):
        if t.op == "idx": return s.idx(args[0], args[1])
        if t.op == "slice": return T.lift(mkslice, *args)
        if t.op == "store": return s.mkstore(args[0], args[1], args[2])
        if t.op == "dim":
            return s.dim(args[0], T.pyval(args[1]))
        if t.op == "comp":
            if args[0].op == "num" and False: pass
            return _mk("comp", args, t.kind, t.scalar)
        if t.op == "psum":
            if args[3].op == "num" and args[3].args[0].zero(): return num(0)
            return _mk("psum", args, t.kind, t.scalar)
        if t.op == "rec": return _mk("rec", args, t.kind, t.scalar)
        if t.op == "fun":
            n = t.args[0]
            if n == "floordiv": return s.floordiv(*args[1:])
            if n == "mod": return s.mod(*args[1:])
            if n in ("min", "max") and len(args) == 3: return s.minmax(n, *args[1:])
            return None
        if t.op == "powx": return T.power(*args)
        if any(isinstance(a, T.Term) and a.op == "ite" for a in args) and t.op not in ("sum", "rec", "exists", "firsti", "comp", "lastof"):
            return T.lift(lambda *a: _mk(t.op, tuple(a), t.kind, t.scalar), *args) if all(isinstance(a, T.Term) for a in args) else None
        return None

def self_seq(a):
    return a.op in ("shape", "seqadd", "tupleof") or (a.op == "idx" and a.args[0].op in ("shape", "seqadd", "tupleof"))
