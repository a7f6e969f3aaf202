"""Control-flow graphs over the extracted statements, and a small disjunctive
forward data-flow engine."""
from .facts import walk, callee, strip, subexprs, show, AnalysisBroken

TRUE, FALSE = "T", "F"


class Node:
    __slots__ = ("id", "kind", "expr", "line", "succ", "pred")

    def __init__(self, i, kind, expr, line):
        self.id, self.kind, self.expr, self.line = i, kind, expr, line
        self.succ = []   # (node, label)
        self.pred = []

    def __repr__(self):
        return "%d:%s@%d %s" % (self.id, self.kind, self.line, show(self.expr) if self.expr else "")


class CFG:
    """entry, exit (normal return), dead (after a call that does not return).
    Node kinds: e (expression), d (declaration item), b (branch), sw (switch),
    ret (return value expression), nop."""

    def __init__(self, func, noret):
        self.f = func
        self.noret = noret
        self.nodes = []
        self.entry = self.new("nop", None, func.line)
        self.exit = self.new("exit", None, func.end)
        self.dead = self.new("dead", None, 0)
        self.labels = {}
        self.gotos = []
        self.brk = []
        self.cont = []
        self.sw = []
        last = self.stmt(func.body, [(self.entry, None)])
        self.connect(last, self.exit)
        for src, name in self.gotos:
            t = self.labels.get(name)
            if t is not None:
                self.edge(src, t, None)
        self.prune()

    def new(self, kind, expr, line):
        n = Node(len(self.nodes), kind, expr, line)
        self.nodes.append(n)
        return n

    def edge(self, a, b, label):
        a.succ.append((b, label))

    def connect(self, preds, n):
        for p, l in preds:
            self.edge(p, n, l)

    def terminates(self, e):
        for x in walk(e):
            if x[0] == "call" and callee(x) in self.noret:
                return True
        return False

    def simple(self, kind, e, line, preds):
        n = self.new(kind, e, line)
        self.connect(preds, n)
        ex = e[2] if kind == "d" else e
        if ex is not None and self.terminates(ex):
            # conservative: only when the call is unconditional
            if self.uncond(ex):
                self.edge(n, self.dead, None)
                return []
        return [(n, None)]

    def uncond(self, e):
        """a noreturn call is evaluated on every evaluation of e"""
        if e is None:
            return False
        if e[0] == "call" and callee(e) in self.noret:
            return True
        if e[0] == "bin" and e[3] in ("&&", "||"):
            return self.uncond(e[4])
        if e[0] == "cond":
            return self.uncond(e[3]) or (self.uncond(e[4]) and self.uncond(e[5]))
        return any(self.uncond(s) for s in subexprs(e))

    def cond(self, e, preds, line):
        """returns (true_exits, false_exits)"""
        x = e
        while x is not None and x[0] == "cast":
            x = x[3]
        if x is None:
            return preds, []
        if x[0] == "int":
            return (preds, []) if x[3] else ([], preds)
        if x[0] == "un" and x[3] == "!":
            t, f = self.cond(x[4], preds, line)
            return f, t
        if x[0] == "bin" and x[3] == "&&":
            t1, f1 = self.cond(x[4], preds, line)
            t2, f2 = self.cond(x[5], t1, line)
            return t2, f1 + f2
        if x[0] == "bin" and x[3] == "||":
            t1, f1 = self.cond(x[4], preds, line)
            t2, f2 = self.cond(x[5], f1, line)
            return t1 + t2, f2
        if x[0] == "bin" and x[3] == ",":
            p = self.simple("e", x[4], line, preds)
            return self.cond(x[5], p, line)
        if x[0] == "cond":
            t, f = self.cond(x[3], preds, line)
            t1, f1 = self.cond(x[4], t, line)
            t2, f2 = self.cond(x[5], f, line)
            return t1 + t2, f1 + f2
        n = self.new("b", x, x[1] or line)
        self.connect(preds, n)
        if self.uncond(x):
            self.edge(n, self.dead, None)
            return [], []
        return [(n, TRUE)], [(n, FALSE)]

    def exprstmt(self, e, line, preds):
        """expression statement; top-level conditional operators and
        short-circuits become control flow"""
        x = e
        while x[0] == "cast":
            x = x[3]
        if x[0] == "cond":
            t, f = self.cond(x[3], preds, line)
            return self.exprstmt(x[4], line, t) + self.exprstmt(x[5], line, f)
        if x[0] == "bin" and x[3] == "&&":
            t, f = self.cond(x[4], preds, line)
            return self.exprstmt(x[5], line, t) + f
        if x[0] == "bin" and x[3] == "||":
            t, f = self.cond(x[4], preds, line)
            return self.exprstmt(x[5], line, f) + t
        if x[0] == "bin" and x[3] == ",":
            return self.exprstmt(x[5], line, self.exprstmt(x[4], line, preds))
        if x[0] == "stmtexpr":
            return self.stmt(x[3], preds)
        return self.simple("e", e, e[1] or line, preds)

    def stmt(self, s, preds):
        if s is None:
            return preds
        k, line = s[0], s[1]
        if k == "block":
            for c in s[2]:
                preds = self.stmt(c, preds)
            return preds
        if k == "expr":
            return self.exprstmt(s[2], line, preds)
        if k == "decl":
            for d in s[2]:
                preds = self.simple("d", d, line, preds)
            return preds
        if k == "if":
            t, f = self.cond(s[2], preds, line)
            o = self.stmt(s[3], t)
            return o + (self.stmt(s[4], f) if s[4] else f)
        if k == "while":
            head = self.new("nop", None, line)
            self.connect(preds, head)
            t, f = self.cond(s[2], [(head, None)], line)
            self.brk.append([]); self.cont.append([])
            b = self.stmt(s[3], t)
            for p, l in b + self.cont.pop():
                self.edge(p, head, l)
            return f + self.brk.pop()
        if k == "do":
            head = self.new("nop", None, line)
            self.connect(preds, head)
            self.brk.append([]); self.cont.append([])
            b = self.stmt(s[2], [(head, None)])
            t, f = self.cond(s[3], b + self.cont.pop(), line)
            for p, l in t:
                self.edge(p, head, l)
            return f + self.brk.pop()
        if k == "for":
            preds = self.stmt(s[2], preds)
            head = self.new("nop", None, line)
            self.connect(preds, head)
            t, f = self.cond(s[3], [(head, None)], line) if s[3] else ([(head, None)], [])
            self.brk.append([]); self.cont.append([])
            b = self.stmt(s[5], t)
            b = b + self.cont.pop()
            if s[4]:
                b = self.exprstmt(s[4], line, b)
            for p, l in b:
                self.edge(p, head, l)
            return f + self.brk.pop()
        if k == "switch":
            n = self.new("sw", s[2], line)
            self.connect(preds, n)
            ctx = {"node": n, "def": False, "vals": []}
            self.sw.append(ctx)
            self.brk.append([])
            o = self.stmt(s[3], [])
            self.sw.pop()
            o = o + self.brk.pop()
            if not ctx["def"]:
                o = o + [(n, ("D", tuple(ctx["vals"])))]
            else:
                for i, (t, l) in enumerate(n.succ):
                    if l and l[0] == "D":
                        n.succ[i] = (t, ("D", tuple(ctx["vals"])))
            return o
        if k == "case":
            ctx = self.sw[-1]
            j = self.new("nop", None, line)
            self.connect(preds, j)
            v = s[2][3] if s[2] and s[2][0] == "int" else None
            nm = s[2][4] if s[2] and s[2][0] == "int" and len(s[2]) > 4 else ""
            if s[3] is not None and s[3][0] == "int" and v is not None:
                vals = list(range(v, s[3][3] + 1))
            else:
                vals = [v]
            for v in vals:
                ctx["vals"].append(v)
                self.edge(ctx["node"], j, ("C", v, nm))
            return self.stmt(s[4], [(j, None)])
        if k == "default":
            ctx = self.sw[-1]
            ctx["def"] = True
            j = self.new("nop", None, line)
            self.connect(preds, j)
            self.edge(ctx["node"], j, ("D", ()))
            return self.stmt(s[2], [(j, None)])
        if k == "label":
            j = self.new("nop", None, line)
            self.labels[s[2]] = j
            self.connect(preds, j)
            return self.stmt(s[3], [(j, None)])
        if k == "goto":
            j = self.new("nop", None, line)
            self.connect(preds, j)
            self.gotos.append((j, s[2]))
            return []
        if k == "ret":
            n = self.new("ret", s[2], line)
            self.connect(preds, n)
            if s[2] is not None and self.uncond(s[2]):
                self.edge(n, self.dead, None)
            else:
                self.edge(n, self.exit, None)
            return []
        if k == "break":
            if self.brk:
                self.brk[-1] += preds
            return []
        if k == "cont":
            if self.cont:
                self.cont[-1] += preds
            return []
        return preds

    def prune(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for t, l in n.succ:
                st.append(t)
        self.reach = seen
        for n in self.nodes:
            if n.id in seen:
                for t, l in n.succ:
                    t.pred.append((n, l))
        # reverse post order
        order, done = [], set()
        stack = [(self.entry, iter(self.entry.succ))]
        done.add(self.entry.id)
        while stack:
            n, it = stack[-1]
            for t, l in it:
                if t.id not in done:
                    done.add(t.id)
                    stack.append((t, iter(t.succ)))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.rpon = {n.id: i for i, n in enumerate(order)}


def cfg(P, f):
    if f._cfg is None:
        f._cfg = CFG(f, P.noret)
    return f._cfg


def compute_noret(P):
    """functions no path of which returns"""
    from .facts import calls_of
    callers = {}
    for f in P.funcs.values():
        for c in calls_of(f):
            n = callee(c)
            if n:
                callers.setdefault(n, set()).add(f.name)
    work = [f for f in P.funcs.values() if any(callee(c) in P.noret for c in calls_of(f))]
    while work:
        f = work.pop()
        if f.name in P.noret:
            continue
        g = CFG(f, P.noret)
        if g.exit.id not in g.reach:
            P.noret.add(f.name)
            for c in callers.get(f.name, ()):
                work.append(P.funcs[c])
    for f in P.funcs.values():
        f._cfg = None


def order(e):
    """sub-expressions in evaluation order (post-order), e last"""
    if e is None:
        return
    if e[0] == "bin" and e[3] == "=":
        yield from order(e[5])
        yield from order(e[4])
        yield e
        return
    for s in subexprs(e):
        yield from order(s)
    yield e


class Flow:
    """Disjunctive forward analysis.  States are hashable; transfer(node,
    state) -> iterable of states; edge(node, label, state) -> state or None.
    Each node keeps the set of states that reach it; cap guards blow-up
    (then widen(states) is used)."""

    def __init__(self, g, transfer, edge=None, cap=64, widen=None):
        self.g, self.transfer, self.edgef, self.cap, self.widen = g, transfer, edge, cap, widen
        self.inn = {}
        self.trace = {}

    def run(self, init):
        import heapq
        g = self.g
        self.inn = {g.entry.id: set(init)}
        new = {g.entry.id: set(init)}
        for s in init:
            self.trace[(g.entry.id, s)] = None
        heap = [(0, g.entry.id)]
        queued = {g.entry.id}
        steps = 0
        while heap:
            _, nid = heapq.heappop(heap)
            queued.discard(nid)
            n = g.nodes[nid]
            fresh = new.pop(nid, None)
            if not fresh:
                continue
            steps += 1
            if steps > 200000:
                raise AnalysisBroken("data flow does not settle in %s" % g.f.name)
            for s in fresh:
                for o in self.transfer(n, s):
                    for t, l in n.succ:
                        o2 = self.edgef(n, l, o) if self.edgef and (l is not None) else o
                        if o2 is None:
                            continue
                        cur = self.inn.setdefault(t.id, set())
                        if o2 in cur:
                            continue
                        if len(cur) >= self.cap:
                            if self.widen is None:
                                raise AnalysisBroken("too many states in %s:%d" % (g.f.name, n.line))
                            o2 = self.widen(cur, o2)
                            if o2 is None or o2 in cur:
                                continue
                        cur.add(o2)
                        self.trace[(t.id, o2)] = (nid, s)
                        new.setdefault(t.id, set()).add(o2)
                        if t.id not in queued:
                            queued.add(t.id)
                            heapq.heappush(heap, (g.rpon.get(t.id, 0), t.id))
        return self.inn

    def path(self, nid, s):
        """lines of one path to (node, state)"""
        out = []
        k = (nid, s)
        guard = 0
        while k is not None and guard < 100000:
            guard += 1
            n = self.g.nodes[k[0]]
            if n.line and (not out or out[-1] != n.line):
                out.append(n.line)
            k = self.trace.get(k)
        out.reverse()
        return out
