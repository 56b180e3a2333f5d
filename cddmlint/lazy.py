"""Demand-driven evaluation of generators: a generator body is interpreted in a thread of its own with
strict hand-over, one element per request (exactly one of the two sides runs at any time).  The interpreter
state belongs to whoever runs; forked histories that request elements twice are rejected."""
import threading
from . import terms as T
from .terms import Undecided, TRUE, FALSE, NONE, num

END = object()
CTX = ("stack", "fstack", "loops", "trystack", "yield_handlers", "side", "cur")

class Co:
    def __init__(s, I, g):
        s.g = g
        s.thread = None; s.done = False; s.count = 0
        s.go, s.back = threading.Semaphore(0), threading.Semaphore(0)
        s.ctx = None; s.value = None; s.error = None
        s.key = (("co", g.args[1]), "pos")

    def next(s, I):
        from .interp import Dead
        pos = I.get(s.key)
        if pos is None: pos = num(0)
        if pos is T.const("consumed"): return END
        if pos is not num(s.count): raise Undecided("generator shared by several paths")
        if s.done: return END
        st = I.st
        save = {k: getattr(I, k) for k in CTX}
        fo, fr = s.g.args
        if s.thread is None:
            s.nloops = len(I.loops)
            I.stack, I.fstack, I.loops = list(I.stack) + [fo], list(I.fstack) + [fr], list(I.loops)
            I.yield_handlers, I.side = [s.handler(I)], []
            I.visited.add(fo)
            I.st = type(st)(st.d, st.pc)
            s.pc = st.pc
            old = threading.stack_size(128 * 1024 * 1024)
            s.thread = threading.Thread(target=s.body, args=(I,), daemon=True)
            try: s.thread.start()
            finally: threading.stack_size(old)
        else:
            if len(I.loops) != s.nloops: raise Undecided("generator advanced inside another loop")
            for k, v in s.ctx.items(): setattr(I, k, v)
            I.side = []
            s.mine.d, s.mine.pc = st.d, st.pc
            s.pc = st.pc
            I.st = s.mine
            s.go.release()
        s.back.acquire()
        gen = I.st; side = I.side
        s.ctx = {k: getattr(I, k) for k in CTX}
        for k, v in save.items(): setattr(I, k, v)
        I.st = st
        if s.error is not None: raise s.error
        raised = FALSE
        for k, sx, v in side:
            if k != "raise" or s.ctx["trystack"] > I.trystack: raise Undecided("exit from a generator")
            raised = T.or_(raised, sx.pc)
            I.side.append((k, sx, v))
        if s.done and gen is None: raise Dead()
        if T.or_(gen.pc, raised) is not s.pc: raise Undecided("generator yields on one of several paths")
        st.d, st.pc = gen.d, gen.pc
        s.count += 1
        if not s.done or True: I.set(s.key, num(s.count))
        if s.done: return END
        return s.value

    def handler(s, I):
        def h(v):
            if len(I.loops) != s.nloops: raise Undecided("generator yields in a loop of unknown length")
            s.value = v
            s.mine = I.st
            s.back.release()
            s.go.acquire()
            return NONE
        return h

    def body(s, I):
        from .interp import Dead
        try:
            try: outs = I.exec_block(s.g.args[0].node.body, I.st)
            except Dead: outs = []
            end = None
            for k, sx, v in outs:
                if k in ("next", "return"): end = I.merge(end, sx)
                else: I.side.append((k, sx, v))
            I.st = end
        except BaseException as e:
            s.error = e
        s.done = True
        s.back.release()

class Lazy:
    """mixin of the interpreter"""
    def islazy(s, it):
        if it.op == "gen": return True
        if it.op in ("enumerate", "reversed"): return s.islazy(it.args[0])
        if it.op == "zip": return any(s.islazy(x) for x in it.args)
        if it.op == "iterobj":
            src = s.get((it.args[0], "src"))
            return src is not None and s.islazy(src)
        if it.op == "map_": return s.islazy(it.args[1])
        return False

    def co(s, g):
        c = s.cos.get(g.args[1])
        if c is None: c = s.cos[g.args[1]] = Co(s, g)
        return c

    def puller(s, it):
        """function returning the next element of an iterable, or END"""
        if it.op == "gen":
            c = s.co(it)
            return lambda: c.next(s)
        if it.op == "enumerate":
            p = s.puller(it.args[0]); k = [it.args[1]]
            def f():
                v = p()
                if v is END: return END
                i = k[0]; k[0] = T.add(i, num(1))
                return T.tup(i, v)
            return f
        if it.op == "zip":
            ps = [s.puller(x) for x in it.args]
            def f():
                vs = []
                for p in ps:
                    v = p()
                    if v is END: return END
                    vs.append(v)
                return T.tup(*vs)
            return f
        if it.op == "iterobj":
            oid = it.args[0]
            if s.islazy(it):
                src = s.get((oid, "src"))
                key = (oid, "puller")
                if key not in s.pullers: s.pullers[key] = s.puller(src)
                return s.pullers[key]
            def f():
                src, pos = s.get((oid, "src")), s.get((oid, "pos"))
                sp = s.iterspec(src)
                if pos.op != "num" or sp[0] != "known": raise Undecided("iterator advanced with a generator")
                p = T.pyval(pos)
                if p >= len(sp[1]): return END
                s.set((oid, "pos"), num(p + 1))
                return sp[1][p]
            return f
        sp = s.iterspec(it)
        k = [0]
        def f():
            i = k[0]; k[0] += 1
            if sp[0] == "known": return sp[1][i] if i < len(sp[1]) else END
            if sp[1].op == "num": return sp[2](num(i)) if i < T.pyval(sp[1]) else END
            return sp[2](num(i))       # assumed as long as the other operands
        f.endless = sp[0] == "sym" and sp[1].op != "num"
        return f

    def iterate_lazy(s, it, bind, run, orelse):
        if it.op == "gen":
            if it.args[1] in s.cos: return s.pull_loop(it, bind, run, orelse)
            return s.run_generator(it, bind, run, orelse)
        if it.op == "enumerate":
            key = (s.new("i"), "n")
            s.set(key, it.args[1])
            def b(v):
                n = s.get(key)
                s.set(key, T.add(n, num(1)))
                bind(T.tup(n, v))
            return s.iterate(it.args[0], b, run, orelse)
        if it.op == "zip" and it.args[0].op == "gen" and it.args[0].args[1] not in s.cos and not any(s.islazy(x) for x in it.args[1:]):
            # a single generator drives the others
            others = it.args[1:]
            key = (s.new("i"), "n")
            s.set(key, num(0))
            sps = [s.iterspec(x) for x in others]
            cur = {}
            def b(v): cur["v"] = v
            def r(st):
                n = s.get(key); s.st = st
                vs = [cur["v"]]
                for sp in sps:
                    if sp[0] == "known":
                        if n.op != "num": raise Undecided("generator of unknown length against a tuple")
                        if T.pyval(n) >= len(sp[1]): return [("break", st, None)]
                        vs.append(sp[1][T.pyval(n)])
                    else:
                        if sp[1].op == "num" and n.op == "num" and T.pyval(n) >= T.pyval(sp[1]): return [("break", st, None)]
                        vs.append(sp[2](n))
                s.set(key, T.add(n, num(1)))
                bind(T.tup(*vs))
                return run(s.st)
            return s.run_generator(it.args[0], b, r, orelse)
        return s.pull_loop(it, bind, run, orelse)

    def pull_loop(s, it, bind, run, orelse):
        p = s.puller(it)
        outs = []; brk = []
        cur = s.st
        for _ in range(200):
            s.st = cur
            v = p()
            if v is END: break
            cur = s.st
            bind(v)
            nxt = None
            for k, st, x in run(s.st):
                if k in ("next", "continue"): nxt = s.merge(nxt, st)
                elif k == "break": brk.append(("next", st, None))
                else: outs.append((k, st, x))
            cur = nxt
            if cur is None: break
        else: raise Undecided("generator without end")
        if cur is not None:
            cur = s.st
            if orelse: outs += s.exec_block(orelse, cur)
            else: outs.append(("next", cur, None))
        outs += brk
        return s.merge_outs(outs)
