"""A disjunctive abstract interpreter over the extracted control-flow graphs.
Client classes give meaning to loads, stores and calls; small helpers are
entered in the state of the call."""
from .facts import *
from .cfg import cfg


class St:
    """immutable map"""
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self.d == o.d

    def get(self, k, dv=None):
        return self.d.get(k, dv)

    def set(self, k, v):
        if self.d.get(k, "\0") == v:
            return self
        d = dict(self.d)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return St(d)

    def drop(self, pred):
        ks = [k for k in self.d if pred(k)]
        if not ks:
            return self
        d = dict(self.d)
        for k in ks:
            del d[k]
        return St(d)


ASG = ("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


class AI:
    CAP = 400
    INLINE = 90
    DEPTH = 4

    def __init__(self, P):
        self.P = P
        self.stack = []
        self.nstates = 0
        self.visited = set()
        self.taken = {}

    # ---- hooks ----
    def h_call(self, n, e, args, st):
        """list of (value, state), or None for the default"""
        return None

    def h_unknown(self, n, e, args, st):
        """a call that is neither hooked nor entered"""
        return [(None, st)]

    def h_load(self, e, st):
        """value of a memory read, (value, state) or None"""
        return None

    def h_store(self, e, lhs, v, st):
        return st

    def h_assume(self, e, v, truth, st):
        return st

    def h_bin(self, op, a, b, st):
        return None

    def h_un(self, op, v, st):
        return None

    def h_inline(self, g, args, st):
        return any(a is not None for a in args)

    def h_node(self, f, n, st):
        """called at every node entered; state or None to stop"""
        return st

    # ---- expressions: list of (value, state) ----
    def ev(self, e, st):
        if e is None:
            return [(None, st)]
        k = e[0]
        if k == "int":
            return [(e[3], st)]
        if k == "str":
            return [(("str", e[3]), st)]
        if k == "fn":
            return [(("fn", e[3]), st)]
        if k == "cast":
            return self.ev(e[3], st)
        if k == "var":
            v = st.get(e[3])
            if v is None:
                r = self.h_load(e, st)
                if r is not None:
                    return [r]
            return [(v, st)]
        if k in ("mem", "idx"):
            r = self.h_load(e, st)
            if r is not None:
                return r if isinstance(r, list) else [r]
            out = [st]
            for s in subexprs(e):
                out = [s2 for x in out for _, s2 in self.ev(s, x)]
            return [(None, s) for s in out]
        if k == "un":
            op = e[3]
            if op == "*":
                r = self.h_load(e, st)
                if r is not None:
                    return r if isinstance(r, list) else [r]
                return [(None, s) for _, s in self.ev(e[4], st)]
            if op == "&":
                return [(("addr", show(e[4])), st)]
            if op in ("++", "--", "p++", "p--"):
                out = []
                for v, s in self.ev(e[4], st):
                    nv = self.arith("+" if "+" in op else "-", v, 1, s)
                    out.append((v if op[0] == "p" else nv, self.assign(e, e[4], nv, s)))
                return out
            out = []
            for v, s in self.ev(e[4], st):
                if op == "!":
                    t = self.truth(v)
                    out.append((None if t is None else int(not t), s))
                elif op == "-" and isinstance(v, int):
                    out.append((-v, s))
                elif op == "~" and isinstance(v, int):
                    out.append((~v, s))
                else:
                    out.append((self.h_un(op, v, s), s))
            return out
        if k == "bin":
            op = e[3]
            if op == "=":
                return [(v, self.assign(e, e[4], v, s)) for v, s in self.ev(e[5], st)]
            if op in ASG:
                out = []
                for b, s in self.ev(e[5], st):
                    for a, s2 in self.ev(e[4], s):
                        v = self.arith(op[:-1], a, b, s2)
                        out.append((v, self.assign(e, e[4], v, s2)))
                return out
            if op == ",":
                return [r for _, s in self.ev(e[4], st) for r in self.ev(e[5], s)]
            if op in ("&&", "||"):
                out = []
                for s, t in self.branch(e[4], st):
                    if (op == "&&") != t:
                        out.append((int(t), s))
                    else:
                        for v, s2 in self.ev(e[5], s):
                            tv = self.truth(v)
                            out.append((None if tv is None else int(tv), s2))
                return out
            out = []
            for a, s in self.ev(e[4], st):
                for b, s2 in self.ev(e[5], s):
                    out.append((self.arith(op, a, b, s2), s2))
            return out
        if k == "cond":
            out = []
            for s, t in self.branch(e[3], st):
                out += self.ev(e[4] if t else e[5], s)
            return out
        if k == "call":
            return self.call(e, st)
        if k == "stmtexpr":
            return [(None, st)]
        out = [st]
        for s in subexprs(e):
            out = [s2 for x in out for _, s2 in self.ev(s, x)]
        return [(None, s) for s in out]

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, tuple) and v and v[0] in ("str", "fn", "addr"):
            return True
        return None

    def arith(self, op, a, b, st):
        r = self.h_bin(op, a, b, st)
        if r is not None:
            return r
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: int(a / b), "%": lambda: a - b * int(a / b),
                        "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
                        "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                        "<=": lambda: int(a <= b), ">=": lambda: int(a >= b)}[op]()
            except Exception:
                return None
        return None

    def assign(self, e, lhs, v, st):
        l = strip(lhs)
        if l[0] == "var":
            st = st.set(l[3], v)
            return self.h_store(e, l, v, st)
        out = st
        for s in subexprs(l):
            if s is not None and s[0] not in ("int", "var"):
                r = self.ev(s, out)
                out = r[0][1] if r else out
        return self.h_store(e, l, v, out)

    def branch(self, e, st):
        """list of (state, truth)"""
        x = strip(e)
        if x[0] == "un" and x[3] == "!":
            return [(s, not t) for s, t in self.branch(x[4], st)]
        if x[0] == "bin" and x[3] in ("&&", "||"):
            out = []
            for s, t in self.branch(x[4], st):
                if (x[3] == "&&") != t:
                    out.append((s, t))
                else:
                    out += self.branch(x[5], s)
            return out
        out = []
        for v, s in self.ev(x, st):
            t = self.truth(v)
            for want in (True, False):
                if t is not None and t != want:
                    continue
                r = self.h_assume(x, v, want, s)
                for s2 in (r if isinstance(r, list) else [r] if r is not None else []):
                    # a plain variable that is tested keeps the outcome
                    if x[0] == "var" and s2.get(x[3]) is None and not want:
                        s2 = s2.set(x[3], 0)
                    out.append((s2, want))
        return out

    def call(self, e, st):
        n = callee(e)
        sts = [([], st)]
        if n is None:
            c = strip(e[3])
            sts = [([], s) for _, s in self.ev(c, st)]
        for a in e[4]:
            nxt = []
            for vs, s in sts:
                for v, s2 in self.ev(a, s):
                    nxt.append((vs + [v], s2))
            sts = nxt
        out = []
        for vs, s in sts:
            r = self.h_call(n.split("@")[0] if n else None, e, vs, s)
            if r is None:
                g = self.P.funcs.get(n) if n else None
                if g is not None and n not in self.P.noret and len(self.stack) < self.DEPTH and all(x is not g for x in self.stack) \
                        and self.h_inline(g, vs, s) and len(cfg(self.P, g).nodes) <= self.INLINE and not g.variadic:
                    r = self.enter(g, vs, s)
                else:
                    r = self.h_unknown(n.split("@")[0] if n else None, e, vs, s)
            out += r
        return out

    def enter(self, g, args, st):
        for p, v in zip(g.params, args):
            st = st.set(p[0], v)
        self.stack.append(g)
        exits = self.run(g, st)
        self.stack.pop()
        loc = {p[0] for p in g.params}
        for s in stmts(g.body):
            if s[0] == "decl":
                loc |= {d[0] for d in s[2]}
        res = {}
        for v, s in exits:
            s = s.drop(lambda k: k in loc)
            res[(v, s)] = 1
        return list(res)

    # ---- statements ----
    def run(self, f, st, start=None, stop=None):
        """disjunctive run; returns [(returned value, state)]; states that
        reach a node in stop are collected in self.stopped"""
        g = cfg(self.P, f)
        start = start or g.entry
        import heapq
        inn = {start.id: {st}}
        new = {start.id: [st]}
        heap = [(g.rpon.get(start.id, 0), start.id)]
        exits = []
        self.trace = getattr(self, "trace", {})
        queued = {start.id}
        steps = 0
        while heap:
            _, nid = heapq.heappop(heap)
            queued.discard(nid)
            n = g.nodes[nid]
            for s0 in new.pop(nid, ()):
                steps += 1
                self.nstates += 1
                if steps > 40000:
                    raise AnalysisBroken("abstract interpretation does not settle in %s" % f.name)
                self.visited.add((f.name, nid))
                s0 = self.h_node(f, n, s0)
                if s0 is None:
                    continue
                for t, s in self.step(f, g, n, s0, exits):
                    if stop is not None and t.id in stop:
                        self.stopped.append((n, t, s))
                        continue
                    cur = inn.setdefault(t.id, set())
                    if s in cur:
                        continue
                    if len(cur) >= self.CAP:
                        raise AnalysisBroken("too many states in %s:%d" % (f.name, n.line))
                    cur.add(s)
                    new.setdefault(t.id, []).append(s)
                    if t.id not in queued:
                        queued.add(t.id)
                        heapq.heappush(heap, (g.rpon.get(t.id, 0), t.id))
        return exits

    def step(self, f, g, n, st, exits):
        out = []
        if n.kind == "exit":
            exits.append((None, st))
            return out
        if n.kind == "dead":
            return out
        if n.kind == "ret":
            for v, s in (self.ev(n.expr, st) if n.expr is not None else [(None, st)]):
                self.h_ret(f, n, v, s)
                exits.append((v, s))
            return out
        if n.kind == "d":
            name, ti, init = n.expr[0], n.expr[1], n.expr[2]
            for v, s in (self.ev(init, st) if init is not None else [(None, st)]):
                s = s.set(name, v)
                s = self.h_store(n.expr, ["var", n.line, ti, name, "l"], v, s) if init is not None else s
                for t, l in n.succ:
                    out.append((t, s))
            return out
        if n.kind == "b":
            for s, truth in self.branch(n.expr, st):
                for t, l in n.succ:
                    if l == ("T" if truth else "F") or l is None:
                        out.append((t, s))
            return out
        if n.kind == "sw":
            for v, s in self.ev(n.expr, st):
                for t, l in n.succ:
                    if l is None:
                        out.append((t, s))
                    elif l[0] == "C":
                        if isinstance(v, int) and l[1] is not None and v != l[1]:
                            continue
                        s2 = s
                        x = strip(n.expr)
                        if x[0] == "bin" and x[3] == "=":
                            x = strip(x[4])
                        if x[0] == "var" and l[1] is not None:
                            s2 = s.set(x[3], l[1])
                        out.append((t, self.h_case(n, l[1], s2)))
                    else:
                        if isinstance(v, int) and v in l[1]:
                            continue
                        out.append((t, self.h_case(n, None, s)))
            return out
        if n.expr is not None:
            for v, s in self.ev(n.expr, st):
                for t, l in n.succ:
                    out.append((t, s))
            return out
        for t, l in n.succ:
            out.append((t, st))
        return out

    def h_case(self, n, val, st):
        return st

    def h_ret(self, f, n, v, st):
        pass
