"""Parsed source of the analysed package: modules, classes, functions."""
import ast, os, re

class FuncObj:
    """a function of the analysed source (identity = syntax node + closure frame)"""
    __slots__ = ("node", "mod", "closure", "name", "kind", "layout", "sigs", "owner", "deco", "isgen", "_locals", "wrapper")
    def __init__(s, node, mod, closure=None, name=None, owner=None):
        s.node, s.mod, s.closure, s.owner = node, mod, closure, owner
        s.name = name or getattr(node, "name", "<lambda>")
        s.kind = "py"; s.layout = None; s.sigs = None; s.deco = []; s.wrapper = None
        s._locals = None
        s.isgen = not isinstance(node, ast.Lambda) and has_yield(node)
    @property
    def qual(s):
        return "%s.%s%s" % (s.mod.name, (s.owner.name + ".") if s.owner else "", s.name)
    def __repr__(s): return "<%s>" % s.qual
    def body(s):
        return s.node.body

class ClassObj:
    def __init__(s, node, mod):
        s.node, s.mod, s.name = node, mod, node.name
        s.methods = {}; s.attrs = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef,)):
                f = FuncObj(n, mod, owner=s)
                for d in n.decorator_list:
                    u = ast.unparse(d)
                    if u == "property": f.kind = "property"
                    elif u == "staticmethod": f.kind = "static"
                    elif u == "classmethod": f.kind = "classm"
                    elif u.endswith(".setter"): f = None; break
                    else: f.deco.append(d)
                if f is not None: s.methods[n.name] = f
                else:
                    g = FuncObj(n, mod, owner=s); g.kind = "setter"; s.methods[n.name + ".setter"] = g
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): s.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                s.attrs[n.target.id] = n.value
    def __repr__(s): return "<class %s.%s>" % (s.mod.name, s.name)

def has_yield(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
        st.extend(ast.iter_child_nodes(n))
    return False

class Module:
    def __init__(s, name, path, src):
        s.name, s.path, s.src = name, path, src
        s.tree = ast.parse(src, path)
        s.bind = {}          # name -> list of (node, conditional)
        s._scan(s.tree.body, False)
        s.funcs = {}
    def _scan(s, body, cond):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                s.bind.setdefault(n.name, []).append((n, cond))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = a.asname or a.name.split(".")[0]
                    s.bind.setdefault(nm, []).append((n, cond))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): s.bind.setdefault(x.id, []).append((n, cond))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                s.bind.setdefault(n.target.id, []).append((n, cond))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                s.bind.setdefault(n.target.id, []).append((n, True))
            elif isinstance(n, ast.If):
                s._scan(n.body, True); s._scan(n.orelse, True)
            elif isinstance(n, ast.Try):
                s._scan(n.body, True)
                for h in n.handlers: s._scan(h.body, True)
                s._scan(n.orelse, True); s._scan(n.finalbody, True)
            elif isinstance(n, (ast.With, ast.For, ast.While)):
                s._scan(n.body, True)

class Project:
    def __init__(s, root, package="cddm", extra=()):
        s.root, s.package = root, package
        s.mods = {}
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "__pycache__", "examples", "data"))
            for f in sorted(files):
                if not f.endswith(".py"): continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"): rel = rel[:-9]
                with open(p, encoding="utf-8") as fh: s.mods[rel] = Module(rel, p, fh.read())
        for name, path in extra:
            with open(path, encoding="utf-8") as fh: s.mods[name] = Module(name, path, fh.read())
    def resolve_module(s, name):
        return s.mods.get(name)
