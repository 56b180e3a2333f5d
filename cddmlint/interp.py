"""Gated value numbering over syntax trees.

One abstract state flows through the statements; at a branch both arms are analysed
and joined with a gate (no path enumeration), a loop body is analysed once with the
loop-carried cells replaced by unknowns and is then closed (recurrence recognition).
Functions of the analysed project are analysed in the context of the call.
"""
import ast
from . import terms as T
from . import lin
from .terms import _mk, NONE, ELLIPSIS, TRUE, FALSE, num, const, Undecided
from .arrays import Arrays, mkslice, slice_lift, FULL, isint
from .project import FuncObj, ClassObj, Module
from .npmodel import NpModel
from .lazy import Lazy

T.NEVERNONE |= {"fn", "mod", "ext", "cls", "bm", "ref", "view", "obj", "list", "dict", "iterobj", "gen", "comp", "arange", "dim",
                "store", "wrapfn", "super", "set", "property", "exc", "slicelen", "rec", "str", "pycall"}
UNBOUND = _mk("unbound", (), "any", True)
BOT = _mk("bottom", (), "any", True)

class Dead(Exception):
    """the current path can not continue"""

class State:
    __slots__ = ("d", "pc")
    def __init__(s, d, pc):
        s.d, s.pc = d, pc
    def copy(s):
        return State(dict(s.d), s.pc)

class Event:
    __slots__ = ("kind", "guard", "loops", "data", "where", "fn", "stack")
    def __init__(s, kind, guard, loops, data, where, fn, stack):
        s.kind, s.guard, s.loops, s.data, s.where, s.fn, s.stack = kind, guard, loops, data, where, fn, stack
    def __repr__(s):
        return "%s %s guard=%s loops=%s @%s" % (s.kind, [T.show(x) if isinstance(x, T.Term) else x for x in s.data], T.show(s.guard), [(T.show(n)) for n in s.loops], s.where)

class Loop:
    __slots__ = ("iv", "n")
    def __init__(s, iv, n): s.iv, s.n = iv, n

BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor", ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}

CONF = T.sym("cddm.conf.CDDMConfig", "any", True)

class Interp(Lazy, Arrays, NpModel):
    MAXDEPTH = 60

    def __init__(s, project, config=None):
        s.P = project
        s.gstore = {}; s.objcls = {}
        s.events = []
        s.loops = []
        s.rootfacts = []
        s.gulayout = {}
        s.ambig = set()
        s.rank_facts = {}
        s.shapes = {}
        s.shaping = set()
        s.stack = []            # FuncObj being analysed
        s.side = None           # list collecting side outcomes of the running statement
        s.trystack = 0
        s.noid = 0
        s.st = None
        s.yield_handlers = []
        s.cos, s.pullers = {}, {}
        s.visited = set()       # functions analysed
        s.nstmts = 0
        s.fncache = {}
        s.kernels = {}
        s.assumed = {}          # atom -> bool
        s.hooks = {}            # qualified name -> python callable(interp, args, kwargs) or "noop"
        s.opaque = set()        # qualified names not to be analysed into
        s.warn = []
        s.cls_cache = {}
        s.wheremap = None
        s.cur = None
        s.record = True
        s.budget = 400000
        s.extcalls = set()
        s.conf = dict(config or {})      # configuration values assumed for this analysis

    # ------------------------------------------------------------------ misc
    def new(s, tag):
        s.noid += 1
        return (tag, s.noid)

    def get(s, key, default=None):
        v = s.st.d.get(key)
        if v is None: v = s.gstore.get(key, default)
        return v

    def set(s, key, val):
        s.st.d[key] = val

    def facts(s):
        f = list(s.rootfacts)
        for l in s.loops:
            f.append(T.neg(l.iv))
            if l.n is not None: f.append(T.add(T.sub(l.iv, l.n), num(1)))
        if s.st is not None: f += lin.cond_facts(s.st.pc)
        return f

    def where(s, node=None):
        node = node or s.cur
        fn = s.stack[-1] if s.stack else None
        return "%s:%s" % (fn.mod.path if fn else "?", getattr(node, "lineno", "?"))

    def event(s, kind, *data, node=None):
        s.events.append(Event(kind, s.st.pc if s.st else TRUE, tuple(s.loops), data, s.where(node), s.stack[-1] if s.stack else None, tuple(f.qual for f in s.stack)))

    # ------------------------------------------------------------------ merging
    def merge(s, a, b):
        if a is None: return b
        if b is None: return a
        care = T.or_(a.pc, b.pc)
        gate = T.restrict(a.pc, care)
        d = a.d
        for k in set(a.d) | set(b.d):
            va, vb = a.d.get(k), b.d.get(k)
            if va is vb: continue
            if va is None or vb is None:
                g = s.gstore.get(k)
                if g is not None:
                    va = va if va is not None else g; vb = vb if vb is not None else g
                elif isinstance(k[0], tuple) and k[0][0] == "f":
                    va = va if va is not None else UNBOUND; vb = vb if vb is not None else UNBOUND
                else:
                    g = s.unset_value(k)
                    if g is None:
                        d[k] = va if va is not None else vb
                        continue
                    va = va if va is not None else g; vb = vb if vb is not None else g
            d[k] = T.ite(gate, va, vb)
        return State(d, care)

    def unset_value(s, k):
        """value of an attribute or module variable that was not assigned by the analysed code"""
        o, name = k
        if isinstance(o, T.Term):
            if o is CONF: return s.conf[name] if name in s.conf else T.sym("conf." + name, "any", True)
            return None
        if isinstance(o, tuple) and o and o[0] == "m" and len(o) == 2:
            m = s.P.mods.get(o[1])
            return s.module_name(m, name) if m is not None and name in m.bind else None
        if o in s.objcls and isinstance(name, str) and not name.startswith("!"):
            v = s.cls_attr(s.objcls[o], name)
            return v if isinstance(v, T.Term) else None
        return None
    objcls = {}

    def merge_outs(s, outs):
        """merge outcomes of the same kind;  outs: list of (kind, State, val)"""
        by = {}; order = []
        for k, st, v in outs:
            if st.pc is FALSE: continue
            if k not in by: by[k] = (st, v); order.append(k)
            else:
                st0, v0 = by[k]
                care = T.or_(st0.pc, st.pc)
                gate = T.restrict(st0.pc, care)
                v2 = None
                if v0 is not None or v is not None: v2 = T.ite(gate, v0 if v0 is not None else NONE, v if v is not None else NONE)
                by[k] = (s.merge(st0, st), v2)
        return [(k,) + by[k] for k in order]

    # ------------------------------------------------------------------ statements
    def exec_block(s, stmts, st):
        """returns outcomes; 'next' outcome at most one"""
        outs = []
        cur = st
        for n in stmts:
            if cur is None: break
            r = s.exec_stmt(n, cur)
            nxt = None
            for o in r:
                if o[0] == "next": nxt = s.merge(nxt, o[1]) if nxt is not None else o[1]
                else: outs.append(o)
            cur = nxt
            if cur is not None and cur.pc is FALSE: cur = None
        if cur is not None: outs.append(("next", cur, None))
        return s.merge_outs(outs)

    def exec_stmt(s, node, st):
        s.nstmts += 1
        if s.nstmts > s.budget: raise Undecided("analysis budget exceeded")
        old_side, old_st, old_cur = s.side, s.st, s.cur
        s.side, s.st, s.cur = [], st, node
        try:
            m = getattr(s, "st_" + type(node).__name__, None)
            if m is None: raise Undecided("statement %s" % type(node).__name__)
            try:
                r = m(node)
            except Dead:
                r = []
            if r is None: r = [("next", s.st, None)]
            return s.side + r
        finally:
            s.side, s.st, s.cur = old_side, old_st, old_cur

    def st_Expr(s, n):
        if isinstance(n.value, ast.Constant): return
        s.ev(n.value)
    def st_Pass(s, n): return
    def st_Global(s, n):
        fr = s.frame()
        s.set((fr, "!global"), T.tup(*([const(x) for x in n.names] + list(s.get((fr, "!global"), T.tup()).args))))
    def st_Nonlocal(s, n):
        fr = s.frame()
        s.set((fr, "!nonlocal"), T.tup(*([const(x) for x in n.names] + list(s.get((fr, "!nonlocal"), T.tup()).args))))
    def st_Assert(s, n):
        c = s.cond(n.test)
        s.split_raise(T.not_(c), "AssertionError")
    def st_Import(s, n):
        for a in n.names:
            if s.trystack: s.maybe_raise(_mk("importfails", (const(a.name),), "bool", True), "ImportError")
            if a.asname: s.assign_name(a.asname, s.module_term(a.name))
            else: s.assign_name(a.name.split(".")[0], s.module_term(a.name.split(".")[0]))
    def st_ImportFrom(s, n):
        base = s.from_base(n, s.stack[-1].mod)
        for a in n.names:
            if a.name == "*": raise Undecided("import *")
            s.assign_name(a.asname or a.name, s.import_from(base, a.name))
    def st_FunctionDef(s, n):
        s.assign_name(n.name, s.make_function(n, s.stack[-1].mod if s.stack else None, s.frame(), s.stack[-1] if s.stack else None))
    def st_ClassDef(s, n):
        raise Undecided("nested class")
    def st_Delete(s, n):
        for t in n.targets:
            if isinstance(t, ast.Name): s.set((s.frame(), t.id), UNBOUND)
            else:
                s.event("del", s.ev(t.value))
    def st_Return(s, n):
        v = s.once(n.value, s.ev(n.value)) if n.value is not None else NONE
        return [("return", s.st, v)]
    def once(s, n, v):
        """iterators kept by the program deliver their elements once"""
        if v.op == "zip" or v.op == "enumerate" or isinstance(n, ast.GeneratorExp) and v.op in ("tup", "comp"):
            if s.islazy(v): return v
            oid = s.new("i")
            s.set((oid, "src"), v); s.set((oid, "pos"), num(0))
            return _mk("iterobj", (oid,), "any", True)
        return v
    def st_Break(s, n): return [("break", s.st, None)]
    def st_Continue(s, n): return [("continue", s.st, None)]
    def st_Raise(s, n):
        if n.exc is None: name = s.get((s.frame(), "!exc"), const("Exception"))
        else:
            e = n.exc
            if isinstance(e, ast.Call):
                name = s.exc_name(e.func)
                for a in e.args:
                    try: s.ev(a)
                    except Undecided: pass
            else: 
                name = s.exc_name(e)
        s.event("raise", name)
        return [("raise", s.st.copy(), name)]
    def exc_name(s, e):
        if isinstance(e, ast.Name):
            v = s.lookup(e.id, quiet=True)
            if v is not None and v.op == "exc": return v
            return const(e.id)
        if isinstance(e, ast.Attribute): return const(e.attr)
        return s.ev(e)

    def split_raise(s, cond, exc, ev=True):
        """raise exc when cond; current state continues with not cond"""
        cond = T.restrict(cond, s.st.pc) if s.st.pc is not TRUE else cond
        if cond is FALSE: return
        st2 = s.st.copy(); st2.pc = T.and_(s.st.pc, cond)
        keep = s.st
        s.st = st2
        if ev: s.event("raise", const(exc))
        s.side.append(("raise", st2, const(exc)))
        s.st = keep
        s.st.pc = T.and_(s.st.pc, T.not_(cond))
        if s.st.pc is FALSE: raise Dead()

    def maybe_raise(s, atom, exc):
        """operation fails under an unknown condition (only tracked inside of try blocks)"""
        if not s.trystack: return
        if atom in s.assumed:
            if not s.assumed[atom]: return
            atom = TRUE
        s.split_raise(atom, exc, ev=False)

    def st_Assign(s, n):
        v = s.ev(n.value)
        if isinstance(n.targets[0], (ast.Name, ast.Attribute)): v = s.once(n.value, v)
        for t in n.targets: s.assign(t, v)
    def st_AnnAssign(s, n):
        if n.value is not None: s.assign(n.target, s.ev(n.value))
    def st_AugAssign(s, n):
        opn = BINOPS[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            old = s.lookup(t.id)
            v = s.ev(n.value)
            s.assign_aug(old, v, opn, lambda nv: s.assign_name(t.id, nv))
        elif isinstance(t, ast.Attribute):
            o = s.ev(t.value)
            old = s.getattr(o, t.attr)
            v = s.ev(n.value)
            s.assign_aug(old, v, opn, lambda nv: s.setattr(o, t.attr, nv))
        elif isinstance(t, ast.Subscript):
            o = s.ev(t.value)
            path = s.ev_path(t.slice)
            old = s.getitem(o, path)
            v = s.ev(n.value)
            nv = s.binop(opn, s.val(old), s.val(v))
            s.setitem(o, path, nv, target=t.value, aug=opn, operand=s.val(v))
        else: raise Undecided("augmented target")
    def assign_aug(s, old, v, opn, rebind):
        if any(x.op in ("ref", "view") for x in T.leaves(old)):
            nv = s.binop(opn, s.val(old), s.val(v))
            s.store_into(old, (), nv, aug=opn, operand=s.val(v))
        elif any(x.op == "list" for x in T.leaves(old)) and opn == "add":
            s.list_extend(old, v)
        else:
            rebind(s.binop(opn, s.val(old), s.val(v)))

    def st_If(s, n):
        c = s.cond(n.test)
        return s.fork_stmts(c, n.body, n.orelse)

    def fork_stmts(s, c, body, orelse):
        c = T.restrict(c, s.st.pc)
        if c is TRUE: return s.exec_block(body, s.st)
        if c is FALSE: return s.exec_block(orelse, s.st)
        a, b = s.st.copy(), s.st
        a.pc, b.pc = T.and_(s.st.pc, c), T.and_(s.st.pc, T.not_(c))
        outs = []
        if a.pc is not FALSE: outs += s.exec_block(body, a)
        if b.pc is not FALSE: outs += s.exec_block(orelse, b)
        return s.merge_outs(outs)

    def fork_eval(s, c, fa, fb):
        """conditional expression evaluation with side effects"""
        c = T.restrict(c, s.st.pc)
        if c is TRUE: return fa()
        if c is FALSE: return fb()
        st0 = s.st
        a, b = st0.copy(), st0.copy()
        a.pc, b.pc = T.and_(st0.pc, c), T.and_(st0.pc, T.not_(c))
        va = vb = None; sa = sb = None
        if a.pc is not FALSE:
            s.st = a
            try: va = fa(); sa = s.st
            except Dead: pass
        if b.pc is not FALSE:
            s.st = b
            try: vb = fb(); sb = s.st
            except Dead: pass
        if sa is None and sb is None:
            s.st = st0; raise Dead()
        if sa is None: m = sb; v = vb
        elif sb is None: m = sa; v = va
        else:
            care = T.or_(sa.pc, sb.pc); gate = T.restrict(sa.pc, care)
            v = T.ite(gate, va, vb)
            m = s.merge(sa, sb)
        st0.d, st0.pc = m.d, m.pc
        s.st = st0
        return v

    def st_With(s, n):
        for it in n.items:
            v = s.ev(it.context_expr)
            s.event("with", v)
            if it.optional_vars is not None:
                s.assign(it.optional_vars, v if v.op in ("obj",) else T.op("enter", s.freeze(v)))
        outs = s.exec_block(n.body, s.st)
        return outs

    def st_Try(s, n):
        s.trystack += 1 if n.handlers else 0
        try: outs = s.exec_block(n.body, s.st)
        finally: s.trystack -= 1 if n.handlers else 0
        res = []
        nxt = None
        for k, st, v in outs:
            if k == "next": nxt = st
            elif k == "raise" and n.handlers:
                # dispatch on handlers (exception names may be gated)
                rest = st
                for h in n.handlers:
                    m = s.handler_match(h, v)
                    m = T.restrict(m, rest.pc)
                    if m is FALSE: continue
                    hs = rest.copy(); hs.pc = T.and_(rest.pc, m)
                    rest = rest.copy(); rest.pc = T.and_(rest.pc, T.not_(m))
                    if hs.pc is not FALSE:
                        s.st = hs
                        old = hs.d.get((s.frame(), "!exc"))
                        hs.d[(s.frame(), "!exc")] = v
                        if h.name: hs.d[(s.frame(), h.name)] = _mk("exc", (v,), "any", True)
                        o2 = s.exec_block(h.body, hs)
                        for o in o2:
                            if old is not None: o[1].d[(s.frame(), "!exc")] = old
                            else: o[1].d.pop((s.frame(), "!exc"), None)
                        res += o2
                    if rest.pc is FALSE: break
                if rest.pc is not FALSE: res.append(("raise", rest, v))
            else: res.append((k, st, v))
        if nxt is not None:
            if n.orelse: res += s.exec_block(n.orelse, nxt)
            else: res.append(("next", nxt, None))
        res = s.merge_outs(res)
        if n.finalbody:
            fin = []
            for k, st, v in res:
                s.st = st
                for k2, st2, v2 in s.exec_block(n.finalbody, st):
                    if k2 == "next": fin.append((k, st2, v))
                    else: fin.append((k2, st2, v2))
            res = s.merge_outs(fin)
        return res

    SUPER = {"ValueError": ("ValueError", "Exception", "BaseException"), "ImportError": ("ImportError", "Exception", "BaseException"),
             "ModuleNotFoundError": ("ModuleNotFoundError", "ImportError", "Exception"), "IndexError": ("IndexError", "LookupError", "Exception"),
             "KeyError": ("KeyError", "LookupError", "Exception"), "StopIteration": ("StopIteration", "Exception"),
             "GeneratorExit": ("GeneratorExit", "BaseException"),
             "unpack": ("ValueError", "TypeError", "Exception", "BaseException"), "ZeroDivisionError": ("ZeroDivisionError", "ArithmeticError", "Exception")}
    def handler_match(s, h, v):
        if h.type is None: return TRUE
        names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        def f(x):
            if x.op == "exc": x = x.args[0]
            if x.op != "const": return TRUE if ("Exception" in names or "BaseException" in names) else _mk("excis", (x, tuple(names)), "bool", True)
            nm = x.args[1]
            sup = s.SUPER.get(nm, (nm, "Exception", "BaseException"))
            return TRUE if any(q in sup for q in names) else FALSE
        return T.lift(f, v)

    # ------------------------------------------------------------------ loops
    peel = False
    def st_While(s, n):
        if not s.peel: return s.loop(None, n.body, n.orelse, test=n.test)
        # iterations whose continuation is decided by the facts are peeled off
        outs = []
        for k in range(24):
            st0 = s.st.copy(); ns, ne = len(s.side), len(s.events)
            c = s.known(T.restrict(s.cond(n.test), s.st.pc))
            if c is FALSE:
                outs += s.exec_block(n.orelse, s.st) if n.orelse else [("next", s.st, None)]
                return s.merge_outs(outs)
            if c is not TRUE:
                s.st = st0; del s.side[ns:]; del s.events[ne:]
                return s.merge_outs(outs + s.loop(None, n.body, n.orelse, test=n.test))
            cur = None
            for o, st, v in s.exec_block(n.body, s.st):
                if o in ("next", "continue"): cur = s.merge(cur, st)
                elif o == "break": outs.append(("next", st, None))
                else: outs.append((o, st, v))
            if cur is None: return s.merge_outs(outs)
            s.st = cur
        return s.merge_outs(outs + s.loop(None, n.body, n.orelse, test=n.test))

    def st_For(s, n):
        it = s.ev(n.iter)
        return s.for_over(it, lambda v: s.assign(n.target, v), n.body, n.orelse)

    def for_over(s, it, bind, body, orelse=()):
        run = lambda st: s.exec_block(body, st)
        return s.iterate(it, bind, run, orelse)

    def iterate(s, it, bind, run, orelse=()):
        """drive `run` for every element of it"""
        if it.op == "ite":
            c = T.ite(it.args[0], TRUE, FALSE)
            a, b = s.st.copy(), s.st
            pc = s.st.pc
            a.pc, b.pc = T.and_(pc, c), T.and_(pc, T.not_(c))
            outs = []
            for st, x in ((a, it.args[1]), (b, it.args[2])):
                if st.pc is FALSE: continue
                s.st = st
                outs += s.iterate(x, bind, run, orelse)
            return s.merge_outs(outs)
        if s.islazy(it): return s.iterate_lazy(it, bind, run, orelse)
        spec = s.iterspec(it)
        if spec[0] == "known":
            return s.unroll(spec[1], bind, run, orelse)
        _, N, elem = spec
        if N.op == "num" and T.pyval(N) <= 64:
            return s.unroll([elem(num(i)) for i in range(T.pyval(N))], bind, run, orelse)
        return s.loop((N, elem, bind), run, orelse)

    def unroll(s, elems, bind, run, orelse):
        outs = []; brk = []
        cur = s.st
        for e in elems:
            if cur is None: break
            s.st = cur
            bind(e)
            nxt = None
            for k, st, v in run(s.st):
                if k in ("next", "continue"): nxt = s.merge(nxt, st)
                elif k == "break": brk.append(("next", st, None))
                else: outs.append((k, st, v))
            cur = nxt
        if cur is not None:
            s.st = cur
            if orelse: outs += s.exec_block(orelse, cur)
            else: outs.append(("next", cur, None))
        outs += brk
        return s.merge_outs(outs)

    def iterspec(s, it):
        """('known',[..]) or ('sym', N, elem(i)) for an iterable value"""
        it0 = it
        if it.op == "ref" or it.op == "view":
            c = s.val(it)
            n = s.length(it)
            return ("sym", n, lambda i: s.getitem(it0, (i,)))
        if it.op == "list":
            it = s.get((it.args[0], "items"))
        if it.op == "tup": return ("known", list(it.args))
        if it.op == "range":
            a, b, c = it.args
            if c.op != "num": raise Undecided("range step")
            st = T.pyval(c)
            d = T.sub(b, a) if st > 0 else T.sub(a, b)
            if abs(st) != 1: d = s.floordiv(T.add(d, num(abs(st) - 1)), num(abs(st)))
            d = s.clip0(d)
            return ("sym", d, lambda i: T.add(a, T.mul(c, i)))
        if it.op == "enumerate":
            sp = s.iterspec(it.args[0])
            if sp[0] == "known": return ("known", [T.tup(T.add(it.args[1], num(i)), e) for i, e in enumerate(sp[1])])
            return ("sym", sp[1], lambda i: T.tup(T.add(it.args[1], i), sp[2](i)))
        if it.op == "reversed":
            sp = s.iterspec(it.args[0])
            if sp[0] == "known": return ("known", sp[1][::-1])
            return ("sym", sp[1], lambda i: sp[2](T.sub(T.sub(sp[1], num(1)), i)))
        if it.op == "zip":
            sps = [s.iterspec(x) for x in it.args]
            if all(x[0] == "known" for x in sps): return ("known", [T.tup(*e) for e in zip(*[x[1] for x in sps])])
            if any(x[0] == "known" for x in sps):
                n = min(len(x[1]) for x in sps if x[0] == "known")
                # unknown iterables are assumed to be as long as the known one
                return ("known", [T.tup(*[x[1][i] if x[0] == "known" else x[2](num(i)) for x in sps]) for i in range(n)])
            ns = [x[1] for x in sps]
            n = ns[0]
            for m in ns[1:]: n = s.minmax("min", n, m)
            return ("sym", n, lambda i: T.tup(*[x[2](i) for x in sps]))
        if it.op == "comp":
            if it.args[2] is not TRUE:
                # filtered: length unknown
                return ("sym", _mk("dim", (it, num(0)), "int", True), lambda i: _mk("idx", (it, (i,)), "any", False))
            return ("sym", it.args[0], lambda i: s.idx(it, (i,)))
        if it.op == "iterobj":
            oid = it.args[0]
            src = s.get((oid, "src"))
            pos = s.get((oid, "pos"))
            sp = s.iterspec(src)
            if sp[0] == "known":
                if pos.op == "num":
                    p = T.pyval(pos); s.set((oid, "pos"), num(len(sp[1])))
                    return ("known", sp[1][p:])
                raise Undecided("iterator position")
            s.set((oid, "pos"), sp[1])
            return ("sym", T.sub(sp[1], pos), lambda i: sp[2](T.add(pos, i)))
        if it.op == "dict":
            items = s.get((it.args[0], "items"))
            return ("known", [k for k, v in [x.args for x in items.args]])
        if it.op == "const" and isinstance(it.args[1], str): return ("known", [const(c) for c in it.args[1]])
        if it.op in ("num", "bool") or it is NONE:
            if s.trystack: s.split_raise(TRUE, "TypeError", ev=False)
            raise Undecided("iteration over a scalar")
        if s.trystack and it.scalar and it.kind in ("int", "real", "cplx"):
            s.split_raise(TRUE, "TypeError", ev=False)
            raise Undecided("iteration over a scalar")
        if s.trystack and not s.haslen(it): s.maybe_raise(_mk("notiterable", (s.freeze(it),), "bool", True), "TypeError")
        if it.op == "arange": return ("sym", it.args[0], lambda i: i)
        n = s.length(it)
        return ("sym", n, lambda i: s.idx(it, (i,)))

    def clip0(s, d):
        """loop count max(0, d)  (kept as d when it is a proven or natural length)"""
        return d

    def loop(s, forspec, run, orelse=(), test=None):
        """symbolic loop (for: forspec=(N, elem, bind); while: test)"""
        depth = len(s.loops)
        i = T.iv(depth)
        if test is not None:
            body = run
            run = lambda st: s.exec_block(body, st)
        st0 = s.st
        changed = {}          # key -> phi atom
        ev0 = len(s.events)
        for trial in range(12):
            del s.events[ev0:]
            st = st0.copy()
            pc0 = st.pc
            for k, p in changed.items(): st.d[k] = p
            s.st = st
            N = forspec[0] if forspec else None
            s.loops.append(Loop(i, N))
            ex_head = FALSE
            outs = []
            try:
                dead = False
                side0 = s.side; s.side = []
                try:
                    if test is not None:
                        c = s.cond(test)
                        c = T.restrict(c, st.pc)
                        hs = None
                        if c is not TRUE:
                            hs = s.st.copy(); hs.pc = T.and_(s.st.pc, T.not_(c))
                            outs.append(("head", hs, None))
                            s.st.pc = T.and_(s.st.pc, c)
                            if s.st.pc is FALSE: dead = True
                    else:
                        s.ivelem = forspec[1](i)
                        forspec[2](s.ivelem)
                    if not dead: outs += run(s.st)
                except Dead:
                    pass
                outs += s.side
                s.side = side0
            finally:
                s.loops.pop()
            end = None; brks = []
            for k, sx, v in outs:
                if k in ("next", "continue"): end = s.merge(end, sx)
            new = set()
            for k, sx, v in outs:
                for key in sx.d:
                    vv = sx.d[key]
                    ref = changed.get(key)
                    if ref is None: ref = st0.d.get(key)
                    if ref is None: ref = s.gstore.get(key)
                    if vv is not ref and key not in changed:
                        if ref is None and not s.is_frame(key): continue      # object created in the loop
                        if ref is None and v is None and False: continue
                        new.add(key)
            if not new: break
            for key in sorted(new, key=repr):
                init = s.first(st0.d.get(key), s.gstore.get(key))
                changed[key] = s.phi(depth, len(changed), init)
        else:
            raise Undecided("loop does not stabilise")
        return s.close_loop(st0, pc0, forspec, test, i, depth, changed, outs, end, ev0, orelse)

    @staticmethod
    def first(*a):
        for x in a:
            if x is not None: return x
        return None

    def is_frame(s, key): return isinstance(key[0], tuple) and key[0][0] == "f"

    def phi(s, depth, k, init):
        kind = init.kind if init is not None and init.kind in ("int",) else "any"
        sc = bool(init is not None and init.scalar and init.kind == "int")
        return _mk("phi", (depth, k), kind, sc)

    def close_loop(s, st0, pc0, forspec, test, i, depth, changed, outs, end, ev0, orelse):
        i1 = T.add(i, num(1))
        inits = {k: s.first(st0.d.get(k), s.gstore.get(k), UNBOUND) for k in changed}
        exits = [(k, sx, v) for k, sx, v in outs if k not in ("next", "continue")]
        heads = [x for x in exits if x[0] == "head"]
        brks = [x for x in exits if x[0] == "break"]
        others = [x for x in exits if x[0] not in ("break", "head")]
        at = {}       # phi -> value at start of iteration i (closed)
        fin = {}      # key -> value after N iterations
        N = forspec[0] if forspec else None
        stop = FALSE
        for k, sx, v in exits:
            if k == "raise" : continue
            stop = T.or_(stop, T.restrict(sx.pc, pc0))
        nextv = {k: (end.d.get(k, inits[k]) if end is not None else inits[k]) for k in changed}
        if end is not None:
            # values at the end of an iteration are only needed where the iteration is completed
            nextv = {k: T.restrict(v, end.pc) if end.pc is not TRUE else v for k, v in nextv.items()}
        phis = {p: k for k, p in changed.items()}
        # --- simple recurrences
        progress = True
        todo = dict(changed)
        env = {}
        while progress and todo:
            progress = False
            for k, p in list(todo.items()):
                nv = T.subst(nextv[k], env, s.rebuild) if env else nextv[k]
                c = s.solve(p, nv, inits[k], i, N)
                if c is not None:
                    env[p] = c[0]
                    fin[k] = c[1]
                    del todo[k]
                    progress = True
                    # other closed forms may not contain p any more
                    for q in list(env): env[q] = T.subst(env[q], {p: c[0]}, s.rebuild) if p is not q else env[q]
        # while loop with a counter: trip count
        simple_stop = None
        if test is not None and heads and not brks and not others:
            hc = T.subst(T.restrict(heads[0][1].pc, pc0), env, s.rebuild)
            N = s.trip_count(T.not_(hc), i)
            if N is not None:
                simple_stop = True
        if todo or (stop is not FALSE and not simple_stop):
            # general recurrence system
            keys = sorted(todo, key=lambda k: changed[k].args[1])
            bodies = {k: T.subst(nextv[k], env, s.rebuild) for k in keys}
            stopc = T.subst(stop, env, s.rebuild) if not simple_stop else FALSE
            exitvals = {}
            for k in keys: env_k = changed[k]
            rec = s.close_rec(keys, {changed[k]: bodies[k] for k in keys}, {changed[k]: inits[k] for k in keys}, N, stopc, i)
            for k in keys:
                p = changed[k]
                env[p] = rec(p, i)
            for q in list(env):
                env[q] = T.subst(env[q], {p: env[p] for p in (changed[k] for k in keys)}, s.rebuild) if q not in [changed[k] for k in keys] else env[q]
            if stopc is FALSE:
                for k in keys: fin[k] = rec(changed[k], N if N is not None else _mk("trips", (), "int", True))
                count = N
            else:
                count = s.stop_index(stopc, env, N, i)
        else:
            stopc = FALSE
            count = N
        # --- substitute closed values in the recorded events
        if env:
            for e in s.events[ev0:]:
                e.guard = T.subst(e.guard, env, s.rebuild)
                e.data = tuple(s.subst_any(x, env) for x in e.data)
        if simple_stop and N is not None:
            for e in s.events[ev0:]:
                ls = list(e.loops)
                for j, l in enumerate(ls):
                    if l.iv is i and l.n is None: ls[j] = Loop(i, N)
                e.loops = tuple(ls)
                # the loop test itself is implied
                e.guard = T.restrict(e.guard, T.not_(hc))
        # --- states after the loop
        res = []
        base = st0.copy()
        if stopc is FALSE or simple_stop:
            for k in changed:
                v = fin.get(k)
                if v is None: v = T.subst(env[changed[k]], {i: N}, s.rebuild)
                base.d[k] = v
            if simple_stop:
                for k in changed:
                    base.d[k] = T.subst(env[changed[k]], {i: N}, s.rebuild)
            base.pc = pc0
            s.st = base
            if orelse: res += s.exec_block(orelse, base)
            else: res.append(("next", base, None))
            for k, sx, v in others:
                if k == "raise":
                    o = st0.copy(); o.pc = T.and_(pc0, s.exists(T.subst(T.restrict(sx.pc, pc0), env, s.rebuild), i, N))
                    res.append((k, o, v))
        else:
            # the loop may be left early at iteration `count`
            stopped = s.exists(stopc, i, N)
            def at_stop(v): return T.subst(T.subst(v, env, s.rebuild), {i: count}, s.rebuild)
            rest = T.and_(pc0, stopped) if test is None else pc0
            if test is None:
                nat = st0.copy(); nat.pc = T.and_(pc0, T.not_(stopped))
                if nat.pc is not FALSE:
                    for k in changed: nat.d[k] = T.subst(env[changed[k]], {i: N}, s.rebuild)
                    s.st = nat
                    if orelse: res += s.exec_block(orelse, nat)
                    else: res.append(("next", nat, None))
            for k, sx, v in exits:
                o = st0.copy()
                cnd = at_stop(T.restrict(sx.pc, pc0))
                if k == "raise": o.pc = T.and_(pc0, s.exists(T.subst(T.restrict(sx.pc, pc0), env, s.rebuild), i, N))
                else: o.pc = T.and_(rest, cnd)
                if o.pc is FALSE: continue
                for key in sx.d:
                    if key in changed or key not in o.d: o.d[key] = at_stop(sx.d[key])
                vv = at_stop(v) if isinstance(v, T.Term) else v
                if k in ("break",): res.append(("next", o, None))
                elif k == "head":
                    s.st = o
                    if orelse: res += s.exec_block(orelse, o)
                    else: res.append(("next", o, None))
                else: res.append((k, o, vv))
        return s.merge_outs(res)

    def subst_any(s, x, m):
        if isinstance(x, T.Term): return T.subst(x, m, s.rebuild)
        if isinstance(x, tuple): return tuple(s.subst_any(y, m) for y in x)
        return x

    def exists(s, c, i, N):
        if c is TRUE: return TRUE if N is None else T.lt(num(0), N)
        if c is FALSE: return FALSE
        if i not in c.fv: return c
        h = s.height(c)
        return _mk("exists", (N if N is not None else NONE, T.subst(c, {i: T.bv(h)}, s.rebuild)), "bool", True)

    def stop_index(s, stopc, env, N, i):
        h = s.height(stopc)
        return _mk("firsti", (N if N is not None else NONE, T.subst(stopc, {i: T.bv(h)}, s.rebuild)), "int", True)

    def height(s, *ts):
        h = -1
        for x in T.walk(tuple(ts)):
            if x.op == "bv": h = max(h, x.args[0])
        return h + 1

    def haslen(s, v):
        """an array with at least one axis"""
        sh = s.shape_terms(v)
        if sh: return True
        return v.op == "idx" and any(p.kind == "bool" and not p.scalar or p.op == "slice" for p in v.args[1]) or v.op in ("arange", "arange3", "comp", "full", "empty", "zeros")

    def trip_count(s, c, i):
        """iterations of  while c(i)"""
        if c.op == "ite" or c.op == "lt0":
            pos = c
            if c.op == "ite":
                if c.args[1] is FALSE and c.args[2] is TRUE: lit, val = c.args[0], False
                else: return None
            else: lit, val = c, True
            if lit.op != "lt0" or lit.args[0].kind != "int": return None
            p = lit.args[0]
            co, rest = s.coef(p, i)
            if co is None: return None
            if val and co == 1: return T.neg(rest)            # i + r < 0
            if not val and co == -1: return T.add(rest, num(1)) if False else s._neg_trip(rest)
        return None
    def _neg_trip(s, rest):
        # not (-i + r < 0)  ==  r - i >= 0  == i <= r
        return T.add(rest, num(1))

    def coef(s, p, i):
        """p = c*i + rest with constant c"""
        c = None; rest = {}
        for m, k in T.to_poly(p).items():
            if any(i in a.fv or a is i for a, e in m):
                if len(m) == 1 and m[0][0] is i and m[0][1] == 1 and k.im == 0: c = k.re
                else: return None, None
            else: rest[m] = k
        return c, T.from_poly(rest)

    def solve(s, p, nv, init, i, N):
        """closed form of p:  (value at the start of iteration i, value after N iterations)"""
        if nv is p: return init, init
        phs = [x for x in T.walk(nv) if x.op == "phi" and x.args[0] == len(s.loops)]
        im1 = T.sub(i, num(1))
        if not phs:
            prev = T.subst(nv, {i: im1}, s.rebuild)
            if i not in nv.fv and not any(x.op == "iv" for x in ()):
                pass
            z = T.eq(i, num(0))
            a = T.ite(z, init, prev) if init is not UNBOUND else prev
            if N is None: f = None
            else:
                lastv = T.subst(nv, {i: T.sub(N, num(1))}, s.rebuild)
                f = lastv if init is UNBOUND else (T.ite(s.pos(N), lastv, init))
            if f is None: return a, a
            return a, f
        if phs != [p] and set(phs) != {p}: return None
        if p.kind not in ("int", "real", "cplx", "any"): return None
        # first iteration peeled:  if i==0: A else p + d
        zero = T.eq(i, num(0))
        A = None; body = nv
        if nv.op == "ite" and nv.args[0] in (zero,):
            A, body = nv.args[1], nv.args[2]
        elif nv.op == "ite" and nv.args[0].op == "lt0" and T.restrict(nv.args[0], T.not_(zero)) is not nv.args[0]:
            pass
        if A is not None and p in T.walk(A): return None
        if body.op == "ite": 
            # additive in every branch
            d = s.additive(body, p)
        else: d = s.additive(body, p)
        if d is None: return None
        if any(x.op in ("store",) for x in T.walk(d) if False): return None
        if A is None:
            if init is UNBOUND: return None
            if i not in d.fv:
                at = T.add(init, T.mul(d, i))
                return at, (T.add(init, T.mul(d, N)) if N is not None else at)
            at = T.add(init, s.sum(d, i, num(0), i))
            return at, (T.add(init, s.sum(d, i, num(0), N)) if N is not None else at)
        A0 = T.subst(A, {i: num(0)}, s.rebuild)
        at = T.add(A0, s.sum(d, i, num(1), i))        # value at start of iteration i>=1
        f = T.add(A0, s.sum(d, i, num(1), N)) if N is not None else at
        return at, f

    def additive(s, b, p):
        """b = p + d  with d free of p"""
        def f(x):
            if x.op not in ("poly",) and x is not p: return BOT
            d = T.sub(x, p)
            return BOT if p in T.walk(d) else d
        if p.op != "phi": return None
        d = T.lift(f, b)
        if any(l is BOT for l in T.leaves(d)): return None
        return d

    def sum(s, d, i, a, b):
        """sum of d(i) for a <= i < b"""
        if d.op == "ite":
            lits = [x for x in [d.args[0]] if i in x.fv]
            if not lits and d.args[0] is not None:
                return T.ite(d.args[0], s.sum(d.args[1], i, a, b), s.sum(d.args[2], i, a, b))
        out = num(0)
        rest = {}
        if d.op != "ite":
            for m, c in T.to_poly(d).items():
                dep = [(x, e) for x, e in m if i in x.fv]
                ind = [(x, e) for x, e in m if i not in x.fv]
                co = T.from_poly({tuple(ind): c})
                if not dep: out = T.add(out, T.mul(co, T.sub(b, a))); continue
                # pure polynomial in i
                if len(dep) == 1 and dep[0][0] is i and dep[0][1] == 1:
                    # sum i = (b(b-1) - a(a-1))/2
                    g = lambda z: T.mul(num(T.Fraction(1, 2)), T.mul(z, T.sub(z, num(1))))
                    out = T.add(out, T.mul(co, T.sub(g(b), g(a)))); continue
                r = s.prefix(dep, i, a, b)
                out = T.add(out, T.mul(co, r))
            return out
        h = s.height(d)
        return _mk("sum", (a, b, T.subst(d, {i: T.bv(h)}, s.rebuild)), d.kind, d.scalar)

    def prefix(s, dep, i, a, b):
        """sum of a product; single arrays with an affine index become prefix sums"""
        if len(dep) == 1 and dep[0][1] == 1:
            x = dep[0][0]
            cj = False
            if x.op == "conj": cj = True; x = x.args[0]
            if x.op == "idx" and len(x.args[1]) >= 1:
                p = [q for q in x.args[1] if i in q.fv]
                if len(p) == 1 and i not in x.args[0].fv:
                    k = x.args[1].index(p[0])
                    co, r = s.coef(p[0], i)
                    if co in (1, -1):
                        pre = x.args[1][:k]; post = x.args[1][k + 1:]
                        def P(e):
                            if e.op == "num" and T.pyval(e) == 0: return num(0)
                            h = s.height(x)
                            t = _mk("psum", (x.args[0], pre, post, e), x.kind, x.scalar)
                            return T.conj(t) if cj else t
                        if co == 1: return T.sub(P(T.add(b, r)), P(T.add(a, r)))
                        # index r - i, i in [a,b) -> r-b+1 .. r-a
                        return T.sub(P(T.add(T.sub(r, a), num(1))), P(T.add(T.sub(r, b), num(1))))
        d = T.from_poly({tuple(dep): T.ONE})
        h = s.height(d)
        return _mk("sum", (a, b, T.subst(d, {i: T.bv(h)}, s.rebuild)), d.kind, d.scalar)

    def pos(s, N):
        """N > 0"""
        return T.lt(num(0), N)

    def close_rec(s, keys, bodies, inits, N, stopc, i):
        """recurrence system -> function(phi, at) giving the closed term"""
        allp = list(bodies)
        h = s.height(*bodies.values(), *inits.values(), stopc)
        def build(p, at):
            # order the system by reachability from p
            order = [p]
            for q in order:
                for x in s.ordered_phis(bodies[q], len(s.loops)):
                    if x in bodies and x not in order: order.append(x)
            if stopc is not FALSE:
                for x in s.ordered_phis(stopc, len(s.loops)):
                    if x in bodies and x not in order: order.append(x)
            m = {q: _mk("slot", (h, n), q.kind, q.scalar) for n, q in enumerate(order)}
            m[i] = T.bv(h)
            bs = tuple(T.subst(bodies[q], m, s.rebuild) for q in order)
            ins = tuple(inits[q] for q in order)
            return _mk("rec", (bs, ins, at), p.kind, p.scalar)
        return build

    def ordered_phis(s, t, depth):
        out = []; seen = set(); st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple): st.extend(reversed(x)); continue
            if not isinstance(x, T.Term) or x in seen: continue
            seen.add(x)
            if x.op == "phi" and x.args[0] == depth: out.append(x)
            st.extend(reversed(x.args))
        return out

    # ------------------------------------------------------------------ generators
    def enter(s, fo, fr): s.stack.append(fo); s.fstack.append(fr)
    def leave(s): return s.stack.pop(), s.fstack.pop()
    def frame(s): return s.fstack[-1] if s.fstack else ("f", 0)

    def run_generator(s, g, bind, run, orelse):
        fo, fr = g.args
        ck = (("co", fr), "pos")
        used = s.get(ck)
        if used is not None:
            if used is not const("consumed"): raise Undecided("generator already started")
            return s.exec_block(orelse, s.st) if orelse else [("next", s.st, None)]
        s.set(ck, const("consumed"))
        hid = s.new("h")
        def handler(v):
            """called for every yield with the value;  s.st is the state"""
            st = s.st
            top = s.leave()                 # the consumer runs in its own function
            hs = s.yield_handlers; s.yield_handlers = hs[:-1]
            side0 = s.side; s.side = []
            cur0 = s.cur
            try:
                try:
                    bind(v)
                    outs = run(s.st)
                except Dead:
                    outs = []
                outs = s.side + outs
            finally:
                s.enter(*top); s.yield_handlers = hs; s.side = side0; s.cur = cur0
            nxt = None
            for k, sx, vv in outs:
                if k in ("next", "continue"): nxt = s.merge(nxt, sx)
                else: s.side.append((("abort", hid, k), sx, vv))
            if nxt is None: raise Dead()
            st.d, st.pc = nxt.d, nxt.pc
            s.st = st
            return NONE
        s.yield_handlers = s.yield_handlers + [handler]
        s.enter(fo, fr)
        s.visited.add(fo)
        if len(s.stack) > s.MAXDEPTH: raise Undecided("call depth")
        try:
            outs = s.exec_block(fo.node.body, s.st)
        finally:
            s.leave(); s.yield_handlers = s.yield_handlers[:-1]
        res = []
        for k, sx, v in outs:
            if k in ("next", "return"):
                s.st = sx
                if orelse: res += s.exec_block(orelse, sx)
                else: res.append(("next", sx, None))
            elif isinstance(k, tuple) and k[0] == "abort" and k[1] == hid:
                res.append(("next" if k[2] == "break" else k[2], sx, v))
            else: res.append((k, sx, v))
        return s.merge_outs(res)

    def ex_Yield(s, n):
        v = s.ev(n.value) if n.value is not None else NONE
        if s.yield_handlers and s.yield_handlers[-1] is not None:
            return s.yield_handlers[-1](v)
        s.event("yield", s.freeze(v))
        return NONE

    def ex_YieldFrom(s, n):
        it = s.ev(n.value)
        outs = s.iterate(it, lambda v: s.set((s.frame(), "!yf"), v), lambda st: s.yf_body(st))
        s.absorb(outs)
        return NONE
    def yf_body(s, st):
        s.st = st
        v = s.get((s.frame(), "!yf"))
        if s.yield_handlers and s.yield_handlers[-1] is not None: s.yield_handlers[-1](v)
        else: s.event("yield", s.freeze(v))
        return [("next", s.st, None)]

    def absorb(s, outs):
        """continue with the 'next' outcome, record the others as side outcomes"""
        nxt = None
        for k, st, v in outs:
            if k == "next": nxt = s.merge(nxt, st)
            else: s.side.append((k, st, v))
        if nxt is None: raise Dead()
        s.st.d, s.st.pc = nxt.d, nxt.pc

    # ------------------------------------------------------------------ names
    def lookup(s, name, quiet=False):
        fo = s.stack[-1] if s.stack else None
        fr = s.frame()
        g = s.get((fr, "!global"))
        if g is None or const(name) not in g.args:
            v = s.get((fr, name))
            if v is not None:
                return s.check_bound(v, name)
            # closures
            f = fo
            while f is not None and f.closure is not None:
                v = s.get((f.closure, name))
                if v is not None: return s.check_bound(v, name)
                f = s.closure_fn.get(f.closure)
        if fo is not None and not isinstance(fo.node, ast.Lambda) and name in s.local_names(fo) and (g is None or const(name) not in g.args) \
           and s.get((fr, name)) is None and fr in s.realframes:
            s.unbound(name, TRUE)
        v = s.module_name(fo.mod, name) if fo is not None else None
        if v is not None: return v
        v = s.builtin(name)
        if v is not None: return v
        if quiet: return None
        raise Undecided("unknown name %s" % name)

    def local_names(s, fo):
        if fo._locals is None:
            r = set()
            st = list(fo.node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)): r.add(n.name); continue
                if isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)): continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): r.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names: r.add(a.asname or a.name.split(".")[0])
                st.extend(ast.iter_child_nodes(n))
            fo._locals = r
        return fo._locals

    def unbound(s, name, cond):
        s.split_raise(cond, "UnboundLocalError")

    def check_bound(s, v, name):
        v = T.restrict(v, s.st.pc)
        if v is UNBOUND: s.unbound(name, TRUE); raise Dead()
        if v.op == "ite" and any(l is UNBOUND for l in T.leaves(v)):
            c = T.lift(lambda x: TRUE if x is UNBOUND else FALSE, v)
            s.unbound(name, c)
            v = T.restrict(v, s.st.pc)
        return v

    def module_name(s, mod, name):
        key = (("m", mod.name), name)
        v = s.get(key)
        if v is not None: return v
        b = mod.bind.get(name)
        if not b: return None
        v = s.eval_binding(mod, name, b)
        s.gstore[key] = v
        return v

    def eval_binding(s, mod, name, b):
        q = "%s.%s" % (mod.name, name)
        if q == "cddm.conf.CDDMConfig": return CONF
        if q in s.hooks and isinstance(s.hooks[q], T.Term): return s.hooks[q]
        node, cond = b[-1]
        alias = not any(c for n, c in b) and isinstance(node, ast.Assign) and isinstance(node.value, ast.Name) and node.value.id != name and all(isinstance(n, (ast.Import, ast.ImportFrom)) for n, c in b[:-1])
        if alias: pass
        elif any(c for n, c in b) and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or (len(b) > 1 and not all(isinstance(n, (ast.Import, ast.ImportFrom)) for n, c in b) and not isinstance(node, (ast.FunctionDef, ast.ClassDef))):
            return T.sym(q, "any", True)
        # modules are evaluated in their own context
        saved = (s.st, s.stack, s.fstack, s.side, s.loops, s.trystack, s.yield_handlers, s.cur)
        st = State(s.gstore, TRUE)
        s.st, s.stack, s.fstack, s.side, s.loops, s.trystack, s.yield_handlers = st, [s.modfn(mod)], [("m", mod.name)], [], [], 0, []
        nev = len(s.events)
        try:
            if isinstance(node, ast.FunctionDef): return s.make_function(node, mod, None, None)
            if isinstance(node, ast.ClassDef): return s.make_class(node, mod)
            if isinstance(node, ast.Import):
                for a in node.names:
                    nm = a.asname or a.name.split(".")[0]
                    if nm == name: return s.module_term(a.name if a.asname else a.name.split(".")[0])
            if isinstance(node, ast.ImportFrom):
                for a in node.names:
                    if (a.asname or a.name) == name: return s.import_from(s.from_base(node, mod), a.name)
            if isinstance(node, (ast.Assign, ast.AnnAssign)):
                if mod.name.endswith(".conf") and name.isupper() or (mod.name.endswith(".conf") and name in ("C", "F", "U8", "U16", "I64", "cddmConfig")):
                    return T.sym(q, "any", True)
                try:
                    v = s.ev(node.value)
                    if isinstance(node, ast.Assign) and not all(isinstance(t, ast.Name) for t in node.targets):
                        raise Undecided("module level unpacking")
                    return v
                except (Undecided, Dead):
                    return T.sym(q, "any", True)
            return T.sym(q, "any", True)
        finally:
            del s.events[nev:]
            s.st, s.stack, s.fstack, s.side, s.loops, s.trystack, s.yield_handlers, s.cur = saved

    def modfn(s, mod):
        f = s.fncache.get(("mod", mod.name))
        if f is None:
            f = s.fncache[("mod", mod.name)] = FuncObj(ast.parse("def module(): pass").body[0], mod, name="<module>")
        return f

    def from_base(s, node, mod):
        if node.level:
            parts = mod.name.split(".")
            # modules in a package
            parts = parts[:len(parts) - node.level] if not mod.path.endswith("__init__.py") else parts[:len(parts) - node.level + 1]
            return ".".join(parts + ([node.module] if node.module else []))
        return node.module

    def module_term(s, name):
        return _mk("mod", (name,), "any", True)

    def import_from(s, base, name):
        if base == "__future__": return NONE
        m = s.P.resolve_module(base)
        if m is not None:
            v = s.module_name(m, name)
            if v is not None: return v
            if s.P.resolve_module(base + "." + name): return s.module_term(base + "." + name)
            return T.sym("%s.%s" % (base, name), "any", True)
        return s.ext(base + "." + name)

    def ext(s, dotted):
        if dotted.startswith("np."): dotted = "numpy" + dotted[2:]
        return s.first(s.ext_const(dotted), _mk("ext", (dotted,), "any", True))

    def ext_const(s, d):
        if d in ("numpy.newaxis",): return NONE
        if d in ("numpy.pi", "math.pi"): return T.sym("pi", "real", True)
        if d in ("numpy.nan", "numpy.NaN", "math.nan"): return _mk("special", ("nan",), "real", True)
        if d in ("numpy.inf", "math.inf"): return _mk("special", ("inf",), "real", True)
        return None

    def assign_name(s, name, v):
        fr = s.frame()
        g = s.get((fr, "!global"))
        if g is not None and const(name) in g.args:
            k = (("m", s.stack[-1].mod.name), name)
            s.event("setglobal", const(k[0][1] + "." + name), s.freeze(v))
            s.set(k, v); return
        g = s.get((fr, "!nonlocal"))
        if g is not None and const(name) in g.args:
            f = s.stack[-1]
            while f is not None and f.closure is not None:
                if s.get((f.closure, name)) is not None: s.set((f.closure, name), v); return
                f = s.closure_fn.get(f.closure)
        s.set((fr, name), v)

    # ------------------------------------------------------------------ functions and classes
    def make_function(s, node, mod, closure, outer):
        """function value including decorators"""
        key = (id(node), closure)
        fo = s.fncache.get(key)
        if fo is None:
            fo = FuncObj(node, mod, closure)
            s.fncache[key] = fo
            s.keep.append(node)
            if closure is not None:
                s.captured.add(closure)
                s.closure_fn[closure] = outer
        f = _mk("fn", (fo,), "any", True)
        decos = getattr(node, "decorator_list", [])
        if closure is None or decos:
            args = node.args
            # default values are evaluated at definition time
            for nm, d in s.default_nodes(args):
                k = (("d", id(node), closure), nm)
                if s.get(k) is None:
                    try: s.set(k, s.ev(d))
                    except Undecided: s.set(k, T.sym("default:%s" % ast.unparse(d), "any", True))
        else:
            for nm, d in s.default_nodes(node.args):
                s.set((("d", id(node), closure), nm), s.ev(d))
        for d in reversed(decos): f = s.decorate(d, f, fo)
        return f

    def default_nodes(s, a):
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults): yield x.arg, d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: yield x.arg, d

    def decorate(s, d, f, fo):
        u = ast.unparse(d)
        head = u.split("(")[0]
        last = head.split(".")[-1]
        if last in ("vectorize", "guvectorize", "jit", "njit") :
            if isinstance(d, ast.Call):
                fo.deco.append(d)
                fo.kind = {"vectorize": "vec", "guvectorize": "gu", "jit": "jit", "njit": "jit"}[last]
                if last == "guvectorize":
                    for a in d.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str): fo.layout = a.value
                    for k in d.keywords:
                        if k.arg == "signature": fo.layout = k.value.value
                if d.args: fo.sigs = d.args[0]
            else: fo.kind = "jit"
            return f
        if last in ("doc_inherit", "property", "staticmethod", "wraps"): return f
        dv = s.ev(d)
        if dv.op == "ext" : return f
        return s.call(dv, [f], {})

    def make_class(s, node, mod):
        c = s.cls_cache.get(id(node))
        if c is None:
            c = s.cls_cache[id(node)] = ClassObj(node, mod)
            s.keep.append(node)
            c.bases = [b for b in node.bases]
        return _mk("cls", (c,), "any", True)

    def mro(s, c):
        out = [c]
        for b in c.bases:
            u = ast.unparse(b)
            if isinstance(b, ast.Name):
                m = s.module_name(c.mod, b.id)
                if m is not None and m.op == "cls":
                    for x in s.mro(m.args[0]):
                        if x not in out: out.append(x)
        return out

    def has_foreign_base(s, c):
        for x in s.mro(c):
            for b in x.bases:
                u = ast.unparse(b)
                if u == "object": continue
                if isinstance(b, ast.Name):
                    m = s.module_name(x.mod, b.id)
                    if m is not None and m.op == "cls": continue
                return True
        return False

    def find_method(s, c, name):
        for x in s.mro(c):
            if name in x.methods: return x.methods[name], x
            if name in x.attrs: return x.attrs[name], x
        return None, None

    def cls_attr(s, c, name):
        m, owner = s.find_method(c, name)
        if m is None: return None
        if isinstance(m, FuncObj):
            return m
        key = (("c", c.mod.name + "." + owner.name), name)
        v = s.get(key)
        if v is None:
            saved = (s.stack, s.fstack)
            s.stack, s.fstack = s.stack + [s.modfn(owner.mod)], s.fstack + [("m", owner.mod.name)]
            try:
                try: v = s.ev(m)
                except Undecided: v = T.sym("class:" + owner.name + "." + name, "any", True)
            finally: s.stack, s.fstack = saved
            s.gstore[key] = v
        return v
