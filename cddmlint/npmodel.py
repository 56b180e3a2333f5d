"""Model of builtins, numpy functions and array methods."""
import ast
from . import terms as T
from . import lin
from .terms import _mk, NONE, ELLIPSIS, TRUE, FALSE, num, const, Undecided
from .arrays import mkslice, FULL, isint, base_of

# canonical positional names of numpy functions (self first)
SIG = {
    "mean": ("a", "axis", "dtype", "out", "keepdims"), "nanmean": ("a", "axis", "dtype", "out", "keepdims"), "var": ("a", "axis", "dtype", "out", "ddof"), "std": ("a", "axis"),
    "sum": ("a", "axis", "dtype", "out"), "prod": ("a", "axis"), "all": ("a", "axis"), "any": ("a", "axis"), "max": ("a", "axis"), "min": ("a", "axis"), "amax": ("a", "axis"), "amin": ("a", "axis"),
    "moveaxis": ("a", "source", "destination"), "swapaxes": ("a", "axis1", "axis2"), "transpose": ("a", "axes"), "rollaxis": ("a", "axis", "start"),
    "expand_dims": ("a", "axis"), "clip": ("a", "min", "max", "out"), "concatenate": ("arrays", "axis", "out"), "linspace": ("start", "stop", "num", "endpoint", "retstep", "dtype", "axis"),
    "meshgrid": ("*",), "fftshift": ("x", "axes"), "ifftshift": ("x", "axes"), "fftfreq": ("n", "d"), "rfftfreq": ("n", "d"), "fft": ("a", "n", "axis"), "ifft": ("a", "n", "axis"), "fft2": ("a", "s", "axes"), "ifft2": ("a", "s", "axes"), "rfft2": ("a", "s", "axes"), "irfft2": ("a", "s", "axes"),
    "convolve": ("a", "v", "mode"), "sort": ("a", "axis"), "argsort": ("a", "axis"), "cumsum": ("a", "axis"), "where": ("condition", "x", "y"), "tile": ("A", "reps"), "repeat": ("a", "repeats", "axis"), "roll": ("a", "shift", "axis"), "flip": ("m", "axis"),
    "reshape": ("a", "newshape", "order"), "ravel": ("a",), "isclose": ("a", "b"), "allclose": ("a", "b"), "unique": ("a",), "argmax": ("a", "axis"), "argmin": ("a", "axis"), "median": ("a", "axis"), "interp": ("x", "xp", "fp"), "diff": ("a", "n", "axis"), "outer": ("a", "b"), "dot": ("a", "b"), "nansum": ("a", "axis"),
    "squeeze": ("a", "axis"), "stack": ("arrays", "axis"), "hstack": ("tup",), "vstack": ("tup",),
}
DEFAULTS = {("mean", "axis"): NONE, ("sum", "axis"): NONE, ("fftshift", "axes"): NONE}
DTYPES = {"float64", "float32", "float16", "complex64", "complex128", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool_", "double", "complex", "float", "int"}
METHODS_PURE = {"mean", "var", "std", "sum", "prod", "min", "max", "any", "all", "reshape", "ravel", "transpose", "swapaxes", "clip", "conj", "conjugate", "copy", "astype", "cumsum", "argsort", "argmax", "argmin", "flatten", "squeeze", "repeat", "round", "item", "tolist", "dot", "nonzero"}
LISTM = {"append", "insert", "pop", "extend", "index", "count", "remove", "reverse", "copy", "clear", "sort"}

class NpModel:
    def builtin(s, name):
        from .evalx import BUILTINS
        if name in ("True", "False", "None"): return {"True": TRUE, "False": FALSE, "None": NONE}[name]
        if name in BUILTINS: return _mk("builtin", (name,), "any", True)
        if name == "__name__": return const(s.stack[-1].mod.name if s.stack else "module")
        return None

    # ------------------------------------------------------------------ lengths
    def length(s, o):
        def f(x):
            if x.op == "ref":
                sh = s.get((x.args[0], "shape"))
                if sh is not None:
                    if sh.op == "tup": return sh.args[0] if sh.args else num(0)
                    if sh.kind == "int": return sh
                    return s.idx(sh, (num(0),))
                return s.dim(s.val(x), 0)
            if x.op == "view":
                sh = s.shape_of(x)
                if sh.op == "tup" and sh.args: return sh.args[0]
                return s.dim(s.val(x), 0)
            if x.op == "list": return s.length(s.get((x.args[0], "items")))
            if x.op == "dict": return s.length(s.get((x.args[0], "items")))
            if x.op == "tup": return num(len(x.args))
            if x.op == "const" and isinstance(x.args[1], str): return num(len(x.args[1]))
            if x.op == "range": return s.iterspec(x)[1]
            if x.op in ("shape", "seqadd", "tupleof"): return _mk("len", (x,), "int", True)
            if x.op in ("zip", "enumerate", "reversed"):
                sp = s.iterspec(x)
                return num(len(sp[1])) if sp[0] == "known" else sp[1]
            return s.dim(x, 0)
        return T.lift(f, o)

    def shape_of(s, o):
        """shape value (tuple term or opaque)"""
        def f(x):
            if x.op == "ref":
                sh = s.get((x.args[0], "shape"))
                if sh is not None: return sh
                return s.shape_of(s.val(x)) if x is not None else None
            if x.op == "view":
                b, ls = x.args
                sh = s.shape_of(b)
                if sh.op == "tup":
                    cur = tuple(sh.args)
                    for l in ls:
                        if l[0] == "idx": cur = s.path_shape(cur, l[1])
                        elif l[0] in ("real", "imag"): pass
                        elif l[0] in ("transpose", "moveaxis"):
                            pm = s.perm(l, len(cur))
                            cur = tuple(cur[k] for k in pm) if pm is not None else None
                        else: cur = None
                        if cur is None: break
                    if cur is not None: return T.tup(*cur)
                return s.shape_of(s.val(x))
            sh = s.shape_terms(x)
            if sh is not None: return T.tup(*sh)
            if x.scalar and x.kind in ("int", "real", "cplx"): return T.tup()
            y = s.shape_base(x)
            if y.op == "lens" and y.args[1][0] == "reshape":
                r = y.args[1][1]
                return r
            return _mk("shape", (y,), "any", False)
        return T.lift(f, o)

    def ndim(s, o):
        def f(x):
            sh = s.shape_of(x)
            if sh.op == "tup": return num(len(sh.args))
            if sh.op == "shape": return _mk("ndim", (sh.args[0],), "int", True)
            return _mk("len", (sh,), "int", True)
        return T.lift(f, o)

    # ------------------------------------------------------------------ attributes of arrays
    def np_attr(s, o, name):
        if name in ("real", "imag"):
            if o.op in ("ref", "view"):
                c = s.val(o)
                return s.view(o, (name, ()))
            return T.real(o) if name == "real" else T.imag(o)
        if name == "shape": return s.shape_of(o)
        if name == "ndim": return s.ndim(o)
        if name == "T": return s.axis_lens(o, ("transpose", (NONE,)))
        if name == "size":
            return T.lift(lambda x: _mk("size", (s.shape_base(s.val(x)),), "int", True), o)
        if name == "dtype": return s.dtype_of(o)
        if o.op in ("ref", "view", "list", "dict", "tup", "const", "str", "iterobj", "gen", "comp", "set", "poly", "num", "conj", "fun", "idx", "store", "gu", "lens") or name in METHODS_PURE:
            return _mk("meth", (o, name), "any", True)
        if o.op in ("fn",) and name in ("__doc__", "__name__"): return T.op("attr", o, const(name), lifted=False)
        return _mk("attr", (o, const(name)), "any", True)

    def dtype_of(s, o):
        def f(x):
            if x.op == "ref":
                d = s.get((x.args[0], "dtype"))
                if d is not None: return d
                return f(s.get((x.args[0], "content")))
            if x.op == "view":
                if any(l[0] in ("real", "imag") for l in x.args[1]): return _mk("dtype", (s.freeze(x),), "any", True)
                return f(x.args[0])
            y = x
            if y.op in ("idx", "store"): return f(y.args[0])
            if y.op == "conj": return f(y.args[0])
            if y.op == "lens": return f(y.args[0])
            return _mk("dtype", (y,), "any", True)
        return T.lift(f, o)

    # ------------------------------------------------------------------ lenses
    def axis_lens(s, o, l):
        """view with permuted axes; canonical when the number of axes is known"""
        if o.op == "ite": return T.lift(lambda x: s.axis_lens(x, l), o)
        if any(isinstance(a, T.Term) and a.op == "ite" for a in l[1]):
            return T.lift(lambda *a: s.axis_lens(o, (l[0], a)), *l[1])
        sh = s.shape_of(o)
        if sh.op == "tup":
            p = s.perm(l, len(sh.args))
            if p is not None:
                if p == tuple(range(len(p))): return o
                return s.lens(o, ("transpose", tuple(num(k) for k in p)))
        if l[0] == "moveaxis" and l[1][0] is l[1][1]: return o
        return s.lens(o, l)

    def lens(s, o, l):
        """view producing operation"""
        if o.op == "ite": return T.lift(lambda x: s.lens(x, l), o)
        if o.op in ("ref", "view"): return s.view(o, l)
        return s.lens_read(o, l)

    def lens_read(s, c, l):
        def f(x):
            k = l[0]
            if k == "real": return T.real(x)
            if k == "imag": return T.imag(x)
            if k == "moveaxis":
                a, b = l[1]
                if a is b: return x
            if k == "reshape" and x.op == "lens" and x.args[1][0] == "reshape": x = x.args[0]
            if k == "transpose" and x.op == "lens" and x.args[1][0] == "transpose" and len(l[1]) == len(x.args[1][1]) and l[1][0] is not NONE:
                p, q = [T.pyval(i) for i in l[1]], [T.pyval(i) for i in x.args[1][1]]
                pq = [q[i] for i in p]
                x = x.args[0]
                if pq == list(range(len(pq))): return x
                return s.lens_read(x, ("transpose", tuple(num(i) for i in pq)))
            if x.op == "num": return x
            # elementwise: push inside
            if x.op in ("conj",): return T.conj(s.lens_read(x.args[0], l))
            if x.op == "poly":
                bs = {base_of(a) for m, cc in x.args[0] for a, e in m} - {None}
                if len(bs) == 1 and "mixed" not in bs:
                    b = bs.pop()
                    return T.subst(x, {b: _mk("lens", (b, l), b.kind, False)}, s.rebuild)
            return _mk("lens", (x, l), x.kind if x.kind in ("int", "real", "cplx", "bool") else "any", False)
        return T.lift(f, c)

    def lens_write(s, c, l, v):
        if l[0] == "real": return T.add(v, T.mul(num(1j), T.imag(c)))
        if l[0] == "imag": return T.add(T.real(c), T.mul(num(1j), v))
        def f(c, v):
            # undoing a view operation:  write(l, read(l, x)) == x
            if v.op == "lens" and v.args[1] == l: return v.args[0]
            if v.op == "num": return v
            if l[0] == "transpose" and l[1][0] is not NONE:
                p = [T.pyval(i) for i in l[1]]
                return s.lens_read(v, ("transpose", tuple(num(p.index(i)) for i in range(len(p)))))
            return _mk("unlens", (l, v), "any", False)
        return T.lift(f, c, v)

    # ------------------------------------------------------------------ builtins
    def call_builtin(s, name, args, kwargs, node=None):
        a = args
        if name == "len": 
            if a[0] is NONE and s.trystack: s.split_raise(TRUE, "TypeError", ev=False)
            if s.islazy(a[0]) or a[0].op in ("iterobj", "zip", "enumerate"): s.split_raise(TRUE, "TypeError", ev=False)
            if s.trystack and a[0].op not in ("ref", "view", "tup", "list", "dict") and not s.haslen(a[0]): s.maybe_raise(_mk("nolen", (s.freeze(a[0]),), "bool", True), "TypeError")
            return s.length(a[0])
        if name == "range":
            v = [s.val(x) for x in a]
            if len(v) == 1: v = [num(0), v[0], num(1)]
            elif len(v) == 2: v = v + [num(1)]
            return T.lift(lambda *x: _mk("range", tuple(x), "any", False), *v)
        if name == "abs": return T.absv(s.val(a[0]))
        if name in ("min", "max"):
            if len(a) == 1:
                v = s.listval(a[0])
                if v.op == "tup": return s.minmax(name, *v.args)
                return s.npfun(name, [a[0]], {})
            return s.minmax(name, *[s.val(x) for x in a])
        if name in ("int", "float"):
            if not a: return num(0)
            v = s.val(a[0])
            if s.trystack and not (v.scalar and v.kind in ("int", "real")): s.maybe_raise(_mk("noint", (v,), "bool", True), "ValueError")
            def f(x):
                if x.op == "bool": return num(int(x.args[0]))
                if name == "int" and x.op == "num" and x.args[0].im == 0: return num(int(x.args[0].re))
                if x.kind == "int" or (name == "float" and x.kind == "real"): return x
                if name == "float": return x
                return T.fun("int", x, kind="int")
            return T.lift(f, v)
        if name == "complex": return s.val(a[0]) if len(a) == 1 else T.add(s.val(a[0]), T.mul(num(1j), s.val(a[1])))
        if name == "bool": return s.truth(a[0]) if a else FALSE
        if name == "round":
            return T.lift(lambda x: x if x.kind == "int" else T.fun("round", x, kind="int"), s.val(a[0]))
        if name == "tuple":
            if not a: return T.tup()
            return s.seqval(a[0])
        if name == "list":
            if not a: return s.mklist(T.tup())
            v = s.seqval(a[0])
            if v.op == "tup" or True: return s.mklist(v)
        if name == "sorted": 
            v = s.seqval(a[0])
            return s.mklist(s.sorted_term(v, kwargs))
        if name == "enumerate": return _mk("enumerate", (a[0], s.val(a[1]) if len(a) > 1 else s.val(kwargs.get("start", num(0)))), "any", False)
        if name == "zip": return _mk("zip", tuple(a), "any", False)
        if name == "reversed": return _mk("reversed", (a[0],), "any", False)
        if name == "map":
            if len(a) == 2:
                sp = s.iterspec(a[1])
                if sp[0] == "known": return T.tup(*[s.call(a[0], [e], {}) for e in sp[1]])
                i = T.iv(len(s.loops))
                from .interp import Loop
                s.loops.append(Loop(i, sp[1]))
                try: v = s.freeze(s.call(a[0], [sp[2](i)], {}))
                finally: s.loops.pop()
                return s.mkcomp(sp[1], v, TRUE, i)
            raise Undecided("map")
        if name == "filter": raise Undecided("filter")
        if name == "iter":
            if a[0].op in ("iterobj", "gen"): return a[0]
            if s.islazy(a[0]):
                oid = s.new("i")
                s.set((oid, "src"), a[0]); s.set((oid, "pos"), num(0))
                return _mk("iterobj", (oid,), "any", True)
            if s.trystack: s.iterspec(a[0])
            oid = s.new("i")
            s.set((oid, "src"), a[0]); s.set((oid, "pos"), num(0))
            return _mk("iterobj", (oid,), "any", True)
        if name == "next":
            o = a[0]
            if s.islazy(o):
                from .lazy import END
                v = s.puller(o)()
                if v is not END: return v
                if len(a) > 1: return a[1]
                s.split_raise(TRUE, "StopIteration")
            if o.op == "iterobj":
                oid = o.args[0]
                src, pos = s.get((oid, "src")), s.get((oid, "pos"))
                if src.op == "gen": return s.opaque_call(_mk("builtin", ("next",), "any", True), a, kwargs)
                sp = s.iterspec(src)
                if sp[0] == "known":
                    if pos.op != "num": raise Undecided("iterator position")
                    p = T.pyval(pos)
                    if p >= len(sp[1]):
                        if len(a) > 1: return a[1]
                        s.split_raise(TRUE, "StopIteration")
                    s.set((oid, "pos"), num(p + 1))
                    return sp[1][p]
                end = T.le(sp[1], pos)
                end = s.known(end)
                if len(a) > 1:
                    def take():
                        s.set((oid, "pos"), T.add(pos, num(1))); return sp[2](pos)
                    return s.fork_eval(end, lambda: a[1], take)
                if s.trystack or s.stopiter: s.split_raise(end, "StopIteration", ev=False)
                s.set((oid, "pos"), T.add(pos, num(1)))
                return sp[2](pos)
            if o.op == "ite": return s.fork_eval(T.ite(o.args[0], TRUE, FALSE), lambda: s.call_builtin(name, [o.args[1]] + a[1:], kwargs), lambda: s.call_builtin(name, [o.args[2]] + a[1:], kwargs))
            if o.op in ("sym", "pycall", "attr", "idx"):
                # an iterator given from outside: position is tracked with the value
                key = ((o, "iter"), "pos")
                pos = s.first(s.get(key), num(0))
                if s.trystack: s.split_raise(T.le(s.length(o), pos), "StopIteration", ev=False)
                s.set(key, T.add(pos, num(1)))
                return s.idx(o, (pos,))
            return s.opaque_call(_mk("builtin", ("next",), "any", True), a, kwargs)
        if name == "print": s.event("print"); return NONE
        if name == "isinstance": return s.isinst(a[0], a[1])
        if name in ("str", "repr"):
            if a and a[0].op == "const" and isinstance(a[0].args[1], str): return a[0]
            if a and name == "str" and s.plain(a[0]) is not ...: return const(str(s.plain(a[0])))
            return _mk("str", (s.freeze(a[0]) if a else NONE,), "any", True)
        if name == "sum":
            v = s.listval(a[0])
            if v.op == "tup":
                r = num(0)
                for x in v.args: r = s.binop("add", r, x)
                return r
            if v.op == "comp" and v.args[2] is TRUE:
                i = T.iv(len(s.loops))
                body = T.subst(v.args[1], {v.args[3]: i}, s.rebuild)
                return s.sum(body, i, num(0), v.args[0])
            return s.npfun("sum", [a[0]], {})
        if name in ("any", "all"):
            v = s.listval(a[0])
            if v.op == "tup":
                r = FALSE if name == "any" else TRUE
                for x in v.args: r = (T.or_ if name == "any" else T.and_)(r, s.truth(x))
                return r
            return T.op("py" + name, s.freeze(v), kind="bool", scalar=True)
        if name == "getattr":
            if a[1].op == "const":
                if len(a) > 2:
                    return s.getattr_default(a[0], a[1].args[1], a[2])
                return s.getattr_const(a[0], a[1].args[1])
            return T.op("getattr", s.freeze(a[0]), s.freeze(a[1]))
        if name == "setattr":
            if a[1].op == "const": s.setattr(a[0], a[1].args[1], a[2]); return NONE
            raise Undecided("setattr")
        if name == "hasattr":
            if a[1].op == "const" and a[0].op in ("ref", "view", "sym", "obj"):
                return T.op("hasattr", s.freeze(a[0]), a[1], kind="bool", scalar=True)
            return T.op("hasattr", s.freeze(a[0]), s.freeze(a[1]), kind="bool", scalar=True)
        if name == "callable":
            def f(x):
                if x.op in ("fn", "cls", "bm", "ext", "builtin", "wrapfn"): return TRUE
                if x.op in ("num", "const", "bool", "tup", "ref", "view", "list", "poly") or x is NONE: return FALSE
                t = _mk("callable", (x,), "bool", True)
                return (TRUE if s.assumed[t] else FALSE) if t in s.assumed else t
            return T.lift(f, a[0])
        if name == "type": return T.op("typeof", s.freeze(a[0]))
        if name == "set": return T.op("set", s.freeze(s.seqval(a[0])) if a else T.tup())
        if name == "dict":
            oid = s.new("d"); s.set((oid, "items"), T.tup(*[T.tup(const(k), v) for k, v in kwargs.items()]))
            if a:
                it = s.get((a[0].args[0], "items")) if a[0].op in ("dict", "list") else a[0]
                if it.op != "tup": raise Undecided("dict()")
                if a[0].op != "dict" and not all(x.op == "tup" and len(x.args) == 2 for x in it.args): raise Undecided("dict()")
                s.set((oid, "items"), T.tup(*(it.args + s.get((oid, "items")).args)))
            return _mk("dict", (oid,), "any", False)
        if name == "slice":
            v = [s.val(x) for x in a]
            if len(v) == 1: v = [NONE, v[0]]
            return T.lift(mkslice, *v)
        if name == "divmod": return T.tup(s.floordiv(s.val(a[0]), s.val(a[1])), s.mod(s.val(a[0]), s.val(a[1])))
        if name == "__import__":
            if s.trystack: s.maybe_raise(_mk("importfails", (s.freeze(a[0]),), "bool", True), "ImportError")
            return T.op("import", s.freeze(a[0]))
        if name == "globals": return _mk("modvars", (s.stack[-1].mod.name,), "any", True)
        if name == "vars" and a and a[0].op == "mod" and s.P.resolve_module(a[0].args[0]): return _mk("modvars", (a[0].args[0],), "any", True)
        if name in ("locals", "vars"): return s.opaque_call(_mk("builtin", (name,), "any", True), [], {})
        if name[0].isupper(): return _mk("exc", (const(name),), "any", True)
        return s.opaque_call(_mk("builtin", (name,), "any", True), a, kwargs)
    stopiter = False

    def sorted_term(s, v, kwargs):
        if v.op == "tup" and all(x.op == "num" for x in v.args) and not kwargs:
            return T.tup(*sorted(v.args, key=T.pyval))
        return T.op("sorted", s.freeze(v), T.tup(*[T.tup(const(k), s.freeze(x)) for k, x in sorted(kwargs.items())]))

    def getattr_const(s, o, name):
        if o.op == "mod":
            m = s.P.resolve_module(o.args[0])
            if m is not None and name not in m.bind: s.split_raise(TRUE, "AttributeError")
        if o.op == "call_ext_mod": pass
        return s.getattr(o, name)
    def getattr_default(s, o, name, d):
        if o.op == "mod":
            m = s.P.resolve_module(o.args[0])
            if m is not None and name not in m.bind: return d
            return s.getattr(o, name)
        if o.op == "obj":
            if s.get((o.args[0], name)) is None and s.cls_attr(o.args[1], name) is None: return d
            return s.getattr(o, name)
        return s.opaque_call(_mk("builtin", ("getattr",), "any", True), [o, const(name), d], {})

    def seqval(s, v):
        """tuple of the elements of an iterable"""
        if v.op == "tup": return v
        if v.op == "list": return s.get((v.args[0], "items"))
        if v.op == "ite": return T.lift(s.seqval, v)
        if v.op == "comp": return v
        if s.islazy(v):
            out = s.new("l")
            s.set((out, "items"), T.tup())
            def body(st):
                s.st = st
                it = s.get((out, "items"))
                if it.op != "tup" or s.loops_since > 0: raise Undecided("collecting a generator")
                s.set((out, "items"), T.tup(*(it.args + (s.get((out, "cur")),))))
                return [("next", s.st, None)]
            n0 = len(s.loops)
            def bind(x):
                s.loops_since = len(s.loops) - n0
                s.set((out, "cur"), x)
            s.absorb(s.iterate(v, bind, body))
            return s.get((out, "items"))
        if v.op in ("shape", "seqadd"): return v
        sp = s.iterspec(v)
        if sp[0] == "known": return T.tup(*sp[1])
        if sp[1].op == "num" and 0 <= T.pyval(sp[1]) <= 64: return T.tup(*[sp[2](num(i)) for i in range(T.pyval(sp[1]))])
        i = T.iv(len(s.loops))
        return s.mkcomp(sp[1], s.freeze(sp[2](i)), TRUE, i)
    loops_since = 0

    def isinst(s, x, c):
        names = []
        for t in (c.args if c.op == "tup" else (c,)):
            if t.op == "builtin": names.append(t.args[0])
            elif t.op == "ext": names.append(t.args[0].split(".")[-1])
            elif t.op == "cls": names.append(t.args[0].name)
            elif t.op == "typeof": names.append("?")
            else: names.append(T.show(t))
        def f(v):
            if v.op == "const" and isinstance(v.args[1], str): return TRUE if "str" in names else FALSE
            if v is NONE: return FALSE
            if v.op == "num": 
                if v.kind == "int": return TRUE if "int" in names else FALSE
                return TRUE if "float" in names or "complex" in names else FALSE
            if v.op == "bool": return TRUE if "bool" in names or "int" in names else FALSE
            if v.op == "tup": return TRUE if "tuple" in names else FALSE
            if v.op == "slice": return TRUE if "slice" in names else FALSE
            if v.op == "list": return TRUE if "list" in names else FALSE
            if v.op == "dict": return TRUE if "dict" in names else FALSE
            if v.op in ("ref", "view"):
                w = s.val(v)
                if v.op == "ref" and s.get((v.args[0], "input")) is None: return TRUE if "ndarray" in names else FALSE
                v = w
            if v.op == "obj":
                ns = [k.name for k in s.mro(v.args[1])]
                return TRUE if any(n in ns for n in names) else FALSE
            if v.op in ("poly", "store", "gu", "conj"): return TRUE if "ndarray" in names else FALSE
            t = _mk("isinstance", (v, tuple(sorted(names))), "bool", True)
            if t in s.assumed: return TRUE if s.assumed[t] else FALSE
            return t
        return T.lift(f, x)

    # ------------------------------------------------------------------ methods
    def call_method(s, o, name, args, kwargs, node=None):
        if o.op == "ite":
            return s.fork_eval(T.ite(o.args[0], TRUE, FALSE), lambda: s.call_method(o.args[1], name, args, kwargs), lambda: s.call_method(o.args[2], name, args, kwargs))
        if o.op == "list" and name in LISTM: return s.list_method(o, name, args)
        if o.op == "dict":
            items = s.get((o.args[0], "items"))
            if items.op == "tup":
                if name == "items": return items
                if name == "keys": return T.tup(*[i.args[0] for i in items.args])
                if name == "values": return T.tup(*[i.args[1] for i in items.args])
                if name == "get":
                    res = args[1] if len(args) > 1 else NONE
                    for it in items.args: res = T.ite(s.eq(it.args[0], args[0]), it.args[1], res)
                    return res
                if name == "pop":
                    keep = []; val = None
                    for it in items.args:
                        if s.eq(it.args[0], args[0]) is TRUE: val = it.args[1]
                        else: keep.append(it)
                    if val is None:
                        if len(args) > 1: return args[1]
                        raise Undecided("dict.pop")
                    s.set((o.args[0], "items"), T.tup(*keep)); return val
                if name == "setdefault":
                    for it in items.args:
                        if s.eq(it.args[0], args[0]) is TRUE: return it.args[1]
                    s.setitem(o, (args[0],), args[1] if len(args) > 1 else NONE); return args[1]
                if name == "update":
                    if args and args[0].op == "dict":
                        for it in s.get((args[0].args[0], "items")).args: s.setitem(o, (it.args[0],), it.args[1])
                    for k, v in kwargs.items(): s.setitem(o, (const(k),), v)
                    return NONE
            return s.opaque_call(_mk("attr", (s.freeze(o), const(name)), "any", True), args, kwargs)
        if o.op == "const" and isinstance(o.args[1], str):
            v = o.args[1]
            if all(a.op == "const" for a in args) and name in ("upper", "lower", "strip", "split", "startswith", "endswith", "replace", "join"):
                r = getattr(v, name)(*[a.args[1] for a in args])
                return s.mklist(T.tup(*[const(x) for x in r])) if isinstance(r, list) else const(r)
            if name == "format":
                xs, ks = [s.plain(x) for x in args], {k: s.plain(x) for k, x in kwargs.items()}
                if ... not in xs and ... not in ks.values():
                    try: return const(v.format(*xs, **ks))
                    except Exception: pass
            if name == "format" or name == "join": return _mk("str", (o,) + tuple(s.freeze(a) for a in args), "any", True)
        if o.op == "str": return _mk("str", (o, name), "any", True)
        if o.op == "tup":
            if name == "index" and len(args) == 1:
                for i, x in enumerate(o.args):
                    if s.eq(x, args[0]) is TRUE: return num(i)
            if name == "count": raise Undecided("tuple.count")
        if name in ("conj", "conjugate"): return T.conj(s.val(o))
        if name == "copy": return s.newref(s.val(o), s.shape_of(o), s.dtype_of(o))
        if name == "astype":
            return s.cast(o, args[0] if args else kwargs.get("dtype"), copy=True)
        if name == "reshape":
            sh = args[0] if len(args) == 1 else T.tup(*args)
            return s.reshape(o, sh, kwargs.get("order"))
        if name == "ravel": return s.reshape(o, num(-1), args[0] if args else kwargs.get("order"))
        if name == "flatten": return s.newref(s.val(s.reshape(o, num(-1), args[0] if args else kwargs.get("order"))))
        if name == "transpose":
            ax = s.freeze(args[0]) if len(args) == 1 else None
            return s.axis_lens(o, ("transpose", tuple(ax.args if ax is not None and ax.op == "tup" else [s.freeze(x) for x in args]) or (NONE,)))
        if name == "swapaxes": return s.lens(o, ("swapaxes", tuple(s.val(x) for x in args)))
        if name == "fill": s.store_into(o, (), s.val(args[0])); return NONE
        if name in ("sort", "put", "partition", "resize", "itemset", "byteswap") and (o.op in ("ref", "view") or name != "sort"): raise Undecided("method %s changing an array" % name)
        if name in SIG and name in METHODS_PURE: return s.npfun(name, [o] + args, kwargs)
        if name in METHODS_PURE: return s.npfun(name, [o] + args, kwargs)
        return s.opaque_call(_mk("attr", (s.freeze(o), const(name)), "any", True), args, kwargs)

    def list_method(s, o, name, args):
        oid = o.args[0]
        items = s.get((oid, "items"))
        if name == "append":
            if items.op == "ite" and not s.growing(oid) and all(l.op == "tup" for l in T.leaves(items)):
                v = args[0]
                s.set((oid, "items"), T.lift(lambda l: T.tup(*(l.args + (v,))), items)); return NONE
            if items.op != "tup" or s.growing(oid):
                s.set((oid, "items"), _mk("append", (items, s.freeze(args[0])), "any", False)); return NONE
            s.set((oid, "items"), T.tup(*(items.args + (args[0],)))); return NONE
        if name == "extend":
            s.list_extend(o, args[0]); return NONE
        if name == "copy": return s.mklist(items)
        if name == "clear": s.set((oid, "items"), T.tup()); return NONE
        if name == "pop":
            i = s.val(args[0]) if args else num(-1)
            if items.op == "tup" and i.op == "num":
                l = list(items.args); v = l.pop(T.pyval(i)); s.set((oid, "items"), T.tup(*l)); return v
            v = s.idx(items, (i,))
            s.set((oid, "items"), T.lift(lambda it, k: _mk("popped", (it, k), "any", False), items, i))
            return v
        if name == "insert":
            i = s.val(args[0]); v = s.freeze(args[1])
            if items.op == "tup" and i.op == "num":
                l = list(items.args); l.insert(T.pyval(i), args[1]); s.set((oid, "items"), T.tup(*l)); return NONE
            def f(it, k):
                if it.op == "popped" and it.args[1] is k: return s._store(it.args[0], (k,), v)
                return _mk("inserted", (it, k, v), "any", False)
            s.set((oid, "items"), T.lift(f, items, i)); return NONE
        if name == "index":
            if items.op == "tup":
                for k, x in enumerate(items.args):
                    if s.eq(x, args[0]) is TRUE: return num(k)
        if name == "reverse" and items.op == "tup":
            s.set((oid, "items"), T.tup(*items.args[::-1])); return NONE
        if name == "sort" and items.op == "tup" and all(x.op == "num" for x in items.args):
            s.set((oid, "items"), T.tup(*sorted(items.args, key=T.pyval))); return NONE
        if name == "remove" and items.op == "tup":
            l = list(items.args)
            for x in l:
                c = s.eq(x, args[0])
                if c is TRUE: l.remove(x); s.set((oid, "items"), T.tup(*l)); return NONE
                if c is not FALSE: break
        raise Undecided("list.%s" % name)

    def growing(s, oid):
        return False

    def list_extend(s, o, v):
        items = s.get((o.args[0], "items"))
        w = s.seqval(v)
        if items.op == "tup" and w.op == "tup": s.set((o.args[0], "items"), T.tup(*(items.args + w.args)))
        else: s.set((o.args[0], "items"), T.op("seqadd", items, s.freeze(w)))

    def reshape(s, o, sh, order=None):
        sh = s.freeze(sh)
        order = s.val(order) if order is not None else None
        if order is not None and order is not NONE and order is not T.const("C"):
            if order is not T.const("F"): raise Undecided("memory order")
            rev = T.tup(*reversed(sh.args)) if sh.op == "tup" else sh
            return s.axis_lens(s.reshape(s.axis_lens(o, ("transpose", (NONE,))), rev), ("transpose", (NONE,)))
        if o.op not in ("ref", "view", "ite") and o.op == "lens" and o.args[1][0] == "reshape": o = o.args[0]
        return s.lens(o, ("reshape", sh))

    # ------------------------------------------------------------------ casts and creation
    def cast(s, o, dtype, copy=False):
        """np.asarray / array / astype: value transparent (alias when not copied)"""
        if o.op == "ite": return T.lift(lambda x: s.cast(x, dtype, copy), o)
        if o.op in ("list", "tup"):
            v = s.freeze(o)
            r = s.newref(v, None, dtype)
            return r
        if dtype is not None and dtype is not NONE:
            s.event("cast", s.freeze(o), s.freeze(dtype))
        if o.op in ("ref", "view"):
            if copy: return s.newref(s.val(o), s.shape_of(o), dtype if dtype is not None and dtype is not NONE else s.dtype_of(o))
            return o
        if copy and not o.scalar: return s.newref(o, None, dtype)
        if dtype is not None and dtype is not NONE and not o.scalar and o.op in ("poly", "np", "lens", "conj", "idx"): return s.newref(o, None, dtype)
        return o

    def dtype_arg(s, d):
        return s.freeze(d)

    def call_ext(s, name, args, kwargs, node=None):
        s.extcalls.add(name)
        if name in s.hooks: return s.hooks[name](s, name, args, kwargs)
        if name.startswith("numpy."):
            short = name[6:]
            if short.startswith("fft."): return s.npfun(short, args, kwargs)
            if short.startswith("random."): return s.random(short, args, kwargs)
            if short.startswith("lib.format.open_memmap"):
                f = s.freeze
                s.event("call", _mk("ext", (name,), "any", True), T.tup(*[f(a) for a in args]), T.tup(*[T.tup(const(k), f(v)) for k, v in sorted(kwargs.items())]))
                return s.newref(_mk("empty", (), "any", False), kwargs.get("shape"), kwargs.get("dtype"))
            return s.npfun(short, args, kwargs)
        if name.startswith("math."): return s.npfun(name[5:], args, kwargs)
        if name.startswith("time.") or name in ("warnings.warn", "warnings.simplefilter"):
            s.event("call", _mk("ext", (name,), "any", True), T.tup(*[s.freeze(a) for a in args]), T.tup())
            if name.startswith("warnings"): return NONE
            if name in ("time.time", "time.perf_counter", "time.monotonic"): return T.sym("now", "real", True)
            return NONE
        if name == "functools.reduce" and len(args) >= 2:
            sp = s.iterspec(args[1])
            if sp[0] == "known":
                l = list(sp[1]); r = args[2] if len(args) > 2 else l.pop(0)
                for x in l: r = s.call(args[0], [r, x], {})
                return r
            i = T.iv(len(s.loops))
            a, b = T.sym("$a"), T.sym("$b")
            v = s.freeze(s.call(args[0], [a, b], {}))
            return T.op("reduce", v, s.freeze(args[1]), kind="int" if False else "any", scalar=True)
        if name == "functools.wraps" or name == "functools.update_wrapper": return _mk("ext", ("identity",), "any", True)
        if name == "identity": return args[0]
        if name == "functools.partial":
            raise Undecided("partial")
        if name == "numba.prange": return s.call_builtin("range", args, kwargs)
        if name in ("copy.copy", "copy.deepcopy"): return s.newref(s.val(args[0])) if args[0].op in ("ref", "view") else args[0]
        return s.opaque_call(_mk("ext", (name,), "any", True), args, kwargs)

    def random(s, name, args, kwargs):
        f = s.freeze
        s.event("random", const(name), T.tup(*[f(a) for a in args]))
        # every draw is different: numbered by position
        key = (("rng",), "n")
        n = s.first(s.get(key), num(0))
        s.set(key, T.add(n, num(1)))
        return _mk("random", (name, tuple(f(a) for a in args), tuple((k, f(v)) for k, v in sorted(kwargs.items())), n), "any", not args and not kwargs)

    def npfun(s, name, args, kwargs):
        kwargs = dict(kwargs)
        if name in DTYPES:
            if not args: return _mk("ext", ("numpy." + name,), "any", True)
            return T.lift(lambda x: T.fun("as_" + name, x, kind="int" if "int" in name else None) if not (x.kind == "int" and "int" in name and False) else x, s.val(args[0]))
        if name in ("conj", "conjugate", "multiply", "add", "subtract", "divide", "true_divide", "abs", "absolute", "sqrt", "exp", "cos", "sin", "log", "arctan2", "negative", "power", "minimum", "maximum", "square",
                    "isnan", "logical_not", "logical_or", "logical_and", "equal", "greater", "less", "greater_equal", "less_equal", "not_equal", "floor", "ceil", "rint", "round", "around", "hypot", "angle", "real", "imag", "fmin", "fmax", "floor_divide", "mod", "remainder", "clip", "isfinite", "float_power"):
            return s.ufunc(name, args, kwargs)
        if name in ("asarray", "asanyarray", "ascontiguousarray", "array", "require"):
            copy = name == "array" and kwargs.get("copy", TRUE) is not FALSE
            return s.cast(args[0], args[1] if len(args) > 1 else kwargs.get("dtype"), copy)
        if name in ("zeros", "empty", "ones", "full"):
            sh = s.freeze(args[0] if args else kwargs["shape"])
            k = 1
            fill = None
            if name == "full": fill = s.val(args[1] if len(args) > 1 else kwargs["fill_value"]); k = 2
            dt = args[k] if len(args) > k else kwargs.get("dtype", NONE)
            c = {"zeros": num(0), "ones": num(1), "full": fill, "empty": _mk("empty", (), "any", False)}[name]
            if sh.op != "tup" and sh.kind == "int" and sh.scalar: sh = T.tup(sh)
            if s.peel and sh.op == "tup":
                c = _mk("empty", (sh,), "any", False) if name == "empty" else _mk("full", (c, sh), c.kind, False)
            s.event("alloc", const(name), sh, s.freeze(dt))
            return s.newref(c, sh, s.freeze(dt))
        if name in ("zeros_like", "empty_like", "ones_like", "full_like"):
            k = 2 if name == "full_like" else 1
            c = {"zeros": num(0), "ones": num(1), "empty": _mk("empty", (), "any", False)}.get(name[:-5])
            if c is None: c = s.val(args[1])
            dt = args[k] if len(args) > k else kwargs.get("dtype")
            sh = s.shape_of(args[0])
            if s.peel and sh.op == "tup":
                c = _mk("empty", (sh,), "any", False) if name == "empty_like" else _mk("full", (c, sh), c.kind, False)
            return s.newref(c, sh, s.freeze(dt) if dt is not None else s.dtype_of(args[0]))
        if name == "copy": return s.newref(s.val(args[0]), s.shape_of(args[0]))
        if name == "arange":
            v = [s.val(a) for a in args]
            if len(v) == 1: return T.lift(lambda n: _mk("arange", (n,), "int", False), v[0])
            a, b = v[0], v[1]
            c = v[2] if len(v) > 2 else num(1)
            # affine: a + c*arange(n)
            def f(a, b, c):
                if c.op == "num" and T.pyval(c) == 1: return T.add(a, _mk("arange", (T.sub(b, a),), "int", False))
                return _mk("arange3", (a, b, c), "int", False)
            return T.lift(f, a, b, c)
        if name == "iscomplexobj":
            def f(x):
                if x.kind in ("int", "real", "bool"): return FALSE
                if x.kind == "cplx": return TRUE
                x = s.cplx_base(x)
                if x.kind in ("int", "real", "bool"): return FALSE
                if x.kind == "cplx": return TRUE
                if x.op == "bool": return x
                t = _mk("iscomplex", (x,), "bool", True)
                return (TRUE if s.assumed[t] else FALSE) if t in s.assumed else t
            a = args[0]
            def g(r):
                if r.op == "ref":
                    d = s.get((r.args[0], "dtype"))
                    if d is not None:
                        k = s.dtype_kind(d)
                        if k is not None: return k
                    if s.get((r.args[0], "content")).op == "empty" and d is not None:
                        return _mk("iscplxdtype", (d,), "bool", True)
                    return T.lift(f, s.val(r))
                if r.op == "view": 
                    if any(l[0] in ("real", "imag") for l in r.args[1]): return FALSE
                    return g(r.args[0])
                return f(r)
            return T.lift(g, a)
        if name in ("moveaxis", "swapaxes", "rollaxis"):
            o = args[0]
            a = [s.val(x) for x in args[1:]] + [s.val(kwargs[k]) for k in SIG[name][1:] if k in kwargs]
            return s.axis_lens(o, (name, tuple(a)))
        if name == "transpose":
            ax = [s.freeze(x) for x in args[1:]]
            return s.axis_lens(args[0], ("transpose", tuple(ax[0].args if ax and ax[0].op == "tup" else ax) or (NONE,)))
        if name == "reshape": return s.reshape(args[0], args[1] if len(args) > 1 else kwargs.get("newshape", kwargs.get("shape")), args[2] if len(args) > 2 else kwargs.get("order"))
        if name == "expand_dims":
            ax = s.val(args[1] if len(args) > 1 else kwargs["axis"])
            if ax.op == "num":
                k = T.pyval(ax)
                if k < 0: path = (ELLIPSIS, NONE) + (FULL,) * (-k - 1)
                else: path = (FULL,) * k + (NONE,)
                return s.getitem(args[0], path)
            return T.op("expand_dims", s.val(args[0]), ax)
        if name == "copyto" and len(args) == 2 and args[0].op in ("ref", "view"):
            s.ufunc("positive", [args[1]], {"out": args[0], "where": kwargs.get("where", TRUE)}); return NONE
        if name == "positive": return s.ufunc(name, args, kwargs)
        if name in ("copyto", "put", "place", "putmask", "put_along_axis", "fill_diagonal") or name.endswith(".at"): raise Undecided("call of numpy.%s" % name)
        if name == "ndim": return s.ndim(args[0])
        if name == "shape": return s.shape_of(args[0])
        if name == "size": return s.np_attr(args[0], "size")
        if name == "dtype": return args[0]
        if name in ("errstate", "seterr"): return NONE
        if name == "where" and len(args) == 3:
            c, x, y = [s.val(a) for a in args]
            return T.ite(c, x, y) if c.op in ("lt0", "le0", "eq0", "ite") else T.op("where", c, x, y)
        if name in ("concatenate", "stack", "hstack", "vstack"):
            a0 = s.freeze(args[0])
            return s.opaque_np(name, [a0] + [s.freeze(x) for x in args[1:]], kwargs)
        return s.opaque_np(name, args, kwargs)

    def cplx_base(s, x):
        while True:
            if x.op in ("idx", "store", "lens", "conj"): x = x.args[0]
            elif x.op == "gu":
                if x.args[3] is not NONE: x = x.args[3]
                else: return x
            elif x.op == "pycall": return x
            elif x.op in ("poly", "grp"):
                ks = {a.kind for m, c in T.to_poly(x).items() for a, e in m}
                bs = {base_of(a) for m, c in T.to_poly(x).items() for a, e in m} - {None}
                if len(bs) == 1 and "mixed" not in bs and next(iter(bs)) is not x: x = next(iter(bs))
                else: return x
            else: return x

    CPLX_DT = {"cddm.conf.CDTYPE": TRUE, "cddm.conf.FDTYPE": FALSE, "cddm.conf.IDTYPE": FALSE, "cddm.conf.I64DTYPE": FALSE, "cddm.conf.C": TRUE, "cddm.conf.F": FALSE}
    def dtype_kind(s, d):
        """is the dtype complex?"""
        def f(x):
            if x.op == "sym" and x.args[0] in s.CPLX_DT: return s.CPLX_DT[x.args[0]]
            if x.op == "ext": return TRUE if "complex" in x.args[0] else FALSE
            if x.op == "builtin": return TRUE if x.args[0] == "complex" else FALSE
            if x.op == "const" and isinstance(x.args[1], str): return TRUE if "complex" in x.args[1] else FALSE
            if x.op == "dtype":
                y = s.cplx_base(x.args[0])
                if y.kind in ("int", "real"): return FALSE
                if y.kind == "cplx": return TRUE
                t = _mk("iscomplex", (y,), "bool", True)
                return (TRUE if s.assumed[t] else FALSE) if t in s.assumed else t
            return None
        ls = T.leaves(d)
        if any(f(x) is None for x in ls): return None
        return T.lift(f, d)

    def ufunc(s, name, args, kwargs):
        out = kwargs.get("out")
        nin = 2 if name in ("multiply", "add", "subtract", "divide", "true_divide", "arctan2", "power", "minimum", "maximum", "logical_or", "logical_and", "equal", "greater", "less", "greater_equal", "less_equal", "not_equal", "hypot", "fmin", "fmax", "floor_divide", "mod", "remainder", "float_power") else 3 if name == "clip" else 1
        a = list(args)
        if name == "clip":
            for k in ("a_min", "min"):
                if k in kwargs: a.append(kwargs[k])
            for k in ("a_max", "max"):
                if k in kwargs: a.append(kwargs[k])
        if len(a) > nin: out = a[nin]; a = a[:nin]
        v = [s.listval(s.val(x)) for x in a]
        r = T.lift(lambda *x: s._ufunc(name, x), *v)
        wh = kwargs.get("where", TRUE)
        wh = s.val(wh) if wh is not TRUE else TRUE
        if wh is not TRUE and (out is None or out is NONE): r = s.npfun("where", [wh, r, _mk("empty", (), "any", False)], {})
        if out is None: return r
        def put(o):
            if o is NONE: return r
            if o.op not in ("ref", "view"):
                n = s.rebind(o)
                if n is None: s.event("inplace", s.freeze(o), r); return r
                o = n
            if wh is TRUE: s.store_into(o, (), r)
            elif wh.scalar: s.store_into(o, (), T.ite(wh if wh.kind == "bool" else T.boolean(wh), r, s.val(o)))
            else: s.store_into(o, (), s.npfun("where", [wh, r, s.val(o)], {}))
            return o
        if out.op == "tup" and len(out.args) == 1: out = out.args[0]
        if out.op == "ite": return s.fork_eval(T.ite(out.args[0], TRUE, FALSE), lambda: put(out.args[1]), lambda: put(out.args[2]))
        return put(out)

    def _ufunc(s, n, x):
        a = x[0]
        if any(y.op == "tup" for y in x):
            k = max(len(y.args) for y in x if y.op == "tup")
            return T.tup(*[s._ufunc(n, tuple(y.args[i] if y.op == "tup" else y for y in x)) for i in range(k)])
        if n in ("conj", "conjugate"): return T.conj(a)
        if n in ("abs", "absolute"): return T.absv(a)
        if n == "negative": return T.neg(a)
        if n == "positive": return a
        if n == "square": return T.mul(a, a)
        if n == "real": return T.real(a)
        if n == "imag": return T.imag(a)
        if n in ("sqrt",): return T.power(a, num(T.G(T.Fraction(1, 2))))
        if n in ("multiply",): return s.binop("mul", *x)
        if n in ("add",): return s.binop("add", *x)
        if n in ("subtract",): return s.binop("sub", *x)
        if n in ("divide", "true_divide"): return s.binop("div", *x)
        if n in ("power", "float_power"): return T.power(*x)
        if n == "angle" and len(x) == 1: return s._ufunc("arctan2", (T.imag(a), T.real(a)))
        if n == "floor_divide": return s.floordiv(*x)
        if n in ("mod", "remainder"): return s.mod(*x)
        if n in ("minimum", "fmin"): return s.minmax("min", *x)
        if n in ("maximum", "fmax"): return s.minmax("max", *x)
        if n == "logical_not": return s.lnot(a if a.kind == "bool" else s.boolarr(a))
        if n == "logical_or": return T.op("lor", *sorted(x), kind="bool")
        if n == "logical_and": return T.op("land", *sorted(x), kind="bool")
        if n == "equal": return s.eq(*x)
        if n == "not_equal": return T.not_(s.eq(*x))
        if n == "less": return T.lt(*x)
        if n == "less_equal": return T.le(*x)
        if n == "greater": return T.lt(x[1], x[0])
        if n == "greater_equal": return T.le(x[1], x[0])
        if n == "hypot": return T.power(T.add(T.mul(x[0], x[0]), T.mul(x[1], x[1])), num(T.G(T.Fraction(1, 2))))
        if n == "clip":
            return _mk("fun", ("clip",) + tuple(x), a.kind, a.scalar)
        if n in ("round", "around", "rint"): return T.fun("round", a, kind="real")
        if n in ("isnan", "isfinite"): return _mk("np_" + n, (a,), "bool", a.scalar)
        return T.fun(n, *x)

    def extremum(s, name, an, x, k):
        """min/max over all elements: constants and signs move outside"""
        if x.op == "arange":
            return num(0) if name.endswith("min") else T.sub(x.args[0], num(1))
        if x.op == "poly" and x.kind in ("int", "real"):
            ar = [(m, c) for m, c in x.args[0] if any(not a.scalar for a, e in m)]
            if len(ar) == 1:
                m, c = ar[0]
                va = [(a, e) for a, e in m if not a.scalar]
                if len(m) == 1 and va[0][1] == 1 and c.im == 0 and c.re != 0 and (len(x.args[0]) > 1 or c.re != 1):
                    nm = name
                    if c.re < 0: nm = name[:-3] + ("max" if name.endswith("min") else "min")
                    off = T.from_poly({mm: cc for mm, cc in x.args[0] if mm != m})
                    return T.add(T.mul(num(c), s.extremum(nm, an, va[0][0], k)), off)
        return _mk("np", (name, (an,), (x,), ()), k, True)

    def boolarr(s, a):
        return a

    def opaque_np(s, name, args, kwargs):
        """uninterpreted numpy function with canonical arguments"""
        out = kwargs.pop("out", None)
        base = name.split(".")[-1]
        sig = SIG.get(base)
        if sig and sig[0] == "*": sig = None
        pos = [s.freeze(a) for a in args]
        kw = {}
        if sig:
            for nme, v in zip(sig, pos): kw[nme] = v
            rest = pos[len(sig):]
        else: rest = pos
        if name in ("numpy.fft.fft", "fft.fft") and len(args) == 1 and "n" not in kwargs and "axis" not in kwargs and args[0].op in ("ref", "view"):
            sh = s.shape_of(args[0])
            if sh.op == "tup" and sh.args and s.shape_terms(pos[0]) is None: kw["n"] = sh.args[-1]
        for k, v in kwargs.items():
            k = {"a_min": "min", "a_max": "max", "shape": "newshape"}.get(k, k)
            kw[k] = s.freeze(v)
        for k in list(kw):
            if k != (sig[0] if sig else None) and kw[k] is NONE and k in ("axis", "axes", "out", "dtype"): del kw[k]
        if "out" in kw: out = kw.pop("out")
        names = tuple(sorted(kw))
        first = kw.get(sig[0]) if sig else (rest[0] if rest else None)
        k = first.kind if first is not None and first.kind in ("int", "real", "cplx") and base in ("sum", "min", "max", "moveaxis", "sort", "convolve", "cumsum", "concatenate") else ("real" if base in ("var",) else "any")
        if base in ("min", "max", "amin", "amax", "nanmin", "nanmax") and names == (sig[0],) and not rest and out is None:
            return T.lift(lambda x: s.extremum(name, names[0], x, k), first)
        if base == "mean": k = "real" if first.kind in ("int", "real") else first.kind
        sc = base in ("min", "max", "sum", "mean") and "axis" not in kw
        vals = tuple(kw[n] for n in names)
        r = T.lift(lambda *v: _mk("np", (name, names, tuple(v[:len(names)]), tuple(v[len(names):])), k, sc), *(vals + tuple(rest))) if (vals or rest) else _mk("np", (name, (), (), ()), k, sc)
        if out is not None and out is not NONE:
            if out.op in ("ref", "view"): s.store_into(out, (), r); return out
            n = s.rebind(out)
            if n is not None: s.store_into(n, (), r); return n
            s.event("inplace", out, r)
        return r
