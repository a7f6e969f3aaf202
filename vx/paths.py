"""Path-correlated data flow: a client typestate together with what is known,
on the path, about local flags and repeated branch conditions."""
from .facts import *
from .cfg import cfg, Flow, order

PURE = {"VX_IS", "VX_GETF", "VX_GETP", "VX_GETG", "f_GET_CONS_HD", "f_GET_CONS_TL", "f_GET_APPLY_LEFT", "f_GET_APPLY_RIGHT",
        "f_GET_BOOL", "f_GET_BEXPR", "f_GET_STRING", "f_GET_AINT", "GET_INT", "is_fail", "strcmp", "strlen", "strncmp", "VX_INC_REFCNT"}


def modsets(P):
    """globals a function may assign, transitively (None: unknown callee)"""
    if getattr(P, "_mods", None) is not None:
        return P._mods
    own, calls = {}, {}
    taken = {}
    for f in P.funcs.values():
        m, c, t = set(), set(), set()
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] in ASG:
                b = base(e[4])
                if b is not None and b[4] in ("g", "s"):
                    m.add(b[3])
            elif e[0] == "un" and e[3] in ("++", "--", "p++", "p--"):
                b = base(e[4])
                if b is not None and b[4] in ("g", "s"):
                    m.add(b[3])
            elif e[0] == "un" and e[3] == "&":
                b = base(e[4])
                if b is not None and b[4] in ("g", "s"):
                    t.add(b[3])
            elif e[0] == "call":
                n = callee(e)
                c.add(n if n in P.funcs else None if n is None else "")
        own[f.name], calls[f.name], taken[f.name] = m | t, c - {""}, t
    # indirect calls may reach any function whose address is taken
    at = set()
    for f in P.funcs.values():
        for e in all_exprs(f):
            for s in subexprs(e):
                if s is not None and s[0] == "fn" and not (e[0] == "call" and s is e[3]):
                    at.add(s[3])
    indirect = None
    mods = {n: set(m) for n, m in own.items()}
    # fixpoint over reverse edges
    rev = {}
    for n, cs in calls.items():
        for c in cs:
            if c is None:
                rev.setdefault("*", set()).add(n)
            else:
                rev.setdefault(c, set()).add(n)
    mods["*"] = set()
    for a in at:
        rev.setdefault(a, set()).add("*")
    work = list(mods)
    while work:
        n = work.pop()
        for r in rev.get(n, ()):
            if not mods[n] <= mods[r]:
                mods[r] |= mods[n]
                work.append(r)
    P._mods = mods
    return mods


ASG = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


def base(e):
    """the variable an lvalue belongs to"""
    e = strip(e)
    while e is not None:
        if e[0] == "var":
            return e
        if e[0] in ("mem", "idx"):
            if e[0] == "mem" and e[5]:
                return None
            e = strip(e[3])
        elif e[0] == "un" and e[3] == "*":
            return None
        else:
            return None
    return None


def const(e):
    e = strip(e)
    if e is None:
        return None
    if e[0] == "int":
        return e[3]
    if e[0] == "un" and e[3] == "-":
        c = const(e[4])
        return None if c is None else -c
    return None


def canon(e, vs):
    """canonical text of a side-effect free expression; collects variables;
    None when the value cannot be tracked"""
    e = strip(e)
    if e is None:
        return None
    k = e[0]
    if k == "int":
        return str(e[3])
    if k == "str":
        return '"%s"' % e[3]
    if k == "var":
        vs.add((e[3], e[4]))
        return e[3]
    if k == "mem":
        a = canon(e[3], vs)
        vs.add(("*mem", "m"))
        return None if a is None else "%s.%s" % (a, e[4])
    if k == "bin" and e[3] not in ASG and e[3] != ",":
        a, b = canon(e[4], vs), canon(e[5], vs)
        if a is None or b is None:
            return None
        if e[3] in ("==", "!=") and a > b:
            a, b = b, a
        return "(%s%s%s)" % (a, e[3], b)
    if k == "un" and e[3] in ("!", "-", "~"):
        a = canon(e[4], vs)
        return None if a is None else "%s%s" % (e[3], a)
    if k == "un" and e[3] == "*":
        a = canon(e[4], vs)
        vs.add(("*mem", "m"))
        return None if a is None else "*%s" % a
    if k == "fn":
        return e[3]
    if k == "call" and callee(e) in PURE:
        r = []
        for x in e[4]:
            a = canon(x, vs)
            if a is None:
                return None
            r.append(a)
        vs.add(("*mem", "m"))
        return "%s(%s)" % (callee(e), ",".join(r))
    return None


class PathFlow:
    """Subclass and override event/at_exit/split.

    event(x, c, look) -> new client state; x is an expression in evaluation order.
    split(call, c) -> None, or (state if the call is true, state if false)."""

    def __init__(self, P, f, cap=96):
        self.P, self.f, self.cap = P, f, cap
        self.mods = modsets(P)
        self.deps = {}
        # variables whose address is taken are not tracked
        self.taken = set()
        for e in all_exprs(f):
            if e[0] == "un" and e[3] == "&":
                b = base(e[4])
                if b is not None:
                    self.taken.add(b[3])

    def event(self, x, c):
        return c

    def decl(self, name, ti, init, c):
        return c

    def split(self, call, c):
        return None

    def leave(self, n, c, val):
        """called for each state at a return; val: constant returned or None"""

    # ---- facts ----
    def kill(self, facts, name):
        return frozenset(x for x in facts if name not in self.deps.get(x[0], ()) and x[0] != name)

    def kill_mem(self, facts):
        return frozenset(x for x in facts if "*mem" not in self.deps.get(x[0], ()))

    def kill_call(self, facts, n):
        if n in PURE:
            return facts
        m = self.mods.get(n if n is not None else "*")
        out = []
        for x in facts:
            d = self.deps.get(x[0], (x[0],))
            if "*mem" in d:
                continue
            if m is not None:
                if any(v in m for v in d):
                    continue
            out.append(x)
        return frozenset(out)

    def value(self, e, facts):
        """constant value of e on this path, or None"""
        c = const(e)
        if c is not None:
            return c
        e = strip(e)
        if e is None:
            return None
        if e[0] == "var":
            for k, v in facts:
                if k == e[3]:
                    return v
            return None
        if e[0] == "un" and e[3] == "!":
            v = self.value(e[4], facts)
            return None if v is None else int(v == 0 if v != "nz" else False)
        if e[0] == "bin" and e[3] in ("==", "!="):
            a, b = self.value(e[4], facts), self.value(e[5], facts)
            if a is None or b is None or "nz" in (a, b):
                if (a == "nz" and b == 0) or (b == "nz" and a == 0):
                    return int(e[3] == "!=")
            else:
                return int((a == b) == (e[3] == "=="))
        vs = set()
        k = canon(e, vs)
        if k is not None:
            for kk, v in facts:
                if kk == k:
                    return v
        return None

    def key(self, e):
        vs = set()
        k = canon(e, vs)
        if k is None:
            return None
        names = frozenset(v for v, s in vs)
        if any(v in self.taken for v in names):
            return None
        self.deps[k] = names
        return k

    def setfact(self, facts, e, v):
        k = self.key(e)
        if k is None:
            return facts
        return frozenset(x for x in facts if x[0] != k) | {(k, v)}

    def run_expr(self, e, st):
        c, facts = st
        for x in order(e):
            self.facts = facts
            c = self.event(x, c)
            if c is None:
                return None
            if x[0] == "bin" and x[3] in ASG:
                l = strip(x[4])
                if l[0] == "var":
                    facts = self.kill(facts, l[3])
                    if x[3] == "=" and l[3] not in self.taken:
                        v = self.value(x[5], facts)
                        if v is not None:
                            self.deps[l[3]] = frozenset([l[3]])
                            facts = facts | {(l[3], v)}
                else:
                    b = base(x[4])
                    if b is not None:
                        facts = self.kill(facts, b[3])
                    facts = self.kill_mem(facts)
            elif x[0] == "un" and x[3] in ("++", "--", "p++", "p--"):
                b = base(x[4])
                if b is not None:
                    v = self.value(x[4], facts) if strip(x[4])[0] == "var" else None
                    facts = self.kill(facts, b[3])
                    if isinstance(v, int) and b[3] not in self.taken:
                        v += 1 if "++" in x[3] else -1
                        if -16 <= v <= 16:
                            self.deps[b[3]] = frozenset([b[3]])
                            facts = facts | {(b[3], v)}
                else:
                    facts = self.kill_mem(facts)
            elif x[0] == "call":
                facts = self.kill_call(facts, callee(x))
        return (c, facts)

    def tr(self, n, st):
        if n.kind == "d":
            name, ti, init = n.expr[0], n.expr[1], n.expr[2]
            if init is not None:
                st = self.run_expr(init, st)
                if st is None:
                    return []
            c, facts = st
            facts = self.kill(facts, name)
            if init is not None and name not in self.taken:
                v = self.value(init, facts)
                if v is not None:
                    self.deps[name] = frozenset([name])
                    facts = facts | {(name, v)}
            return [(self.decl(name, ti, init, c), facts)]
        if n.expr is None:
            return [st]
        if n.kind == "b":
            x = strip(n.expr)
            if x[0] == "bin" and x[3] in ("==", "!=") and const(x[5]) == 0 and strip(x[4])[0] == "call":
                call, neg = strip(x[4]), x[3] == "=="
            else:
                call, neg = x, False
            if call[0] == "call":
                s2 = self.run_expr(n.expr, st)
                sp = self.split(call, st[0])
                if sp is not None and s2 is not None:
                    t, f = sp
                    if neg:
                        t, f = f, t
                    out = []
                    if t is not None:
                        out.append((("$br", True, t), s2[1]))
                    if f is not None:
                        out.append((("$br", False, f), s2[1]))
                    return out
                return [] if s2 is None else [s2]
        st = self.run_expr(n.expr, st)
        return [] if st is None else [st]

    def edge(self, n, label, st):
        c, facts = st
        if n.kind == "b":
            want = label == "T"
            if isinstance(c, tuple) and c and c[0] == "$br":
                if c[1] != want:
                    return None
                c = c[2]
                return (c, facts)
            v = self.value(n.expr, facts)
            if v is not None:
                truth = True if v == "nz" else bool(v)
                if truth != want:
                    return None
            x = strip(n.expr)
            if x[0] == "bin" and x[3] == "=":
                x = strip(x[4])
            if x[0] == "bin" and x[3] in ("==", "!="):
                k0 = const(x[5])
                y = strip(x[4])
                if k0 is not None and y[0] == "var" and (x[3] == "==") == want:
                    facts = self.setfact(facts, y, k0)
                    return (self.assume(n.expr, want, c), facts)
                if k0 == 0 and y[0] == "var":
                    facts = self.setfact(facts, y, "nz")
                    return (self.assume(n.expr, want, c), facts)
            if x[0] == "var":
                if want:
                    if self.value(x, facts) in (None,):
                        facts = self.setfact(facts, x, "nz")
                else:
                    facts = self.setfact(facts, x, 0)
            else:
                facts = self.setfact(facts, x, 1 if want else 0)
            c = self.assume(n.expr, want, c)
            if c is None:
                return None
            return (c, facts)
        if n.kind == "sw":
            v = self.value(n.expr, facts)
            if label[0] == "C":
                if isinstance(v, int) and label[1] is not None and v != label[1]:
                    return None
                if strip(n.expr)[0] == "var" and label[1] is not None:
                    facts = self.setfact(facts, n.expr, label[1])
            else:
                if isinstance(v, int) and v in label[1]:
                    return None
            return (c, facts)
        return st

    def assume(self, e, truth, c):
        return c

    def widen(self, cur, st):
        c, facts = st
        return (c, frozenset())

    def run(self, init):
        g = cfg(self.P, self.f)
        self.g = g

        def widen(cur, st):
            if len(cur) > 4 * self.cap:
                raise AnalysisBroken("too many states in %s" % self.f.name)
            return (st[0], frozenset())
        self.flow = Flow(g, self.tr, self.edge, cap=self.cap, widen=widen)
        inn = self.flow.run([(init, frozenset())])
        out = []
        for n in g.nodes:
            if n.kind == "ret" and n.id in inn:
                for st in inn[n.id]:
                    for o in self.tr(n, st):
                        out.append((n, st, o[0], self.value(n.expr, o[1]) if n.expr is not None else None))
        # falling off the end
        for st in inn.get(g.exit.id, ()):
            preds = [p for p, l in g.exit.pred if p.kind != "ret"]
            if preds:
                k = self.flow.trace.get((g.exit.id, st))
                if k is not None and g.nodes[k[0]].kind == "ret":
                    continue
                out.append((g.exit, st, st[0], None))
        return out
