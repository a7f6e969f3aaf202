"""Nesting of saved interpreter state: how deep each protected or saved piece
of state is, relative to the entry of a function, at every way out of it
(return, or jump to a setjmp)."""
from .facts import *
from .cfg import cfg, order
from .paths import PathFlow, const

LIM = 12
# environments whose catcher is known only at run time
ABORT = ("*start_envp", "toplevel_eval_env")


class Res:
    """opens: {function: depth change}; a callable gives the change from the call's arguments"""

    def __init__(self, name, what, opens, closes):
        self.name, self.what, self.opens, self.closes = name, what, opens, closes


def one(call):
    return 1


def argn(i):
    def f(call):
        return const(call[4][i])
    return f


TABLE = [
    Res("gc", "graph nodes protected from garbage collection", {"PUSH_GLOBAL_GC": one}, {"POP_GLOBAL_GC": argn(0)}),
    Res("bddgc", "diagrams protected from garbage collection", {"PUSH_BDD_GC": one}, {"POP_BDD_GC": argn(0)}),
    Res("sop", "string operation contexts", {"Begin_string_ops": one}, {"End_string_ops": one}),
    Res("fsm", "the current circuit", {"push_fsm_env": one}, {"pop_fsm_env": one}),
    Res("ste", "the current trajectory evaluation", {"push_ste": one}, {"pop_ste": one}),
    Res("show", "string display contexts", {"begin_show_ops": one}, {"end_show_ops": one}),
    Res("tc", "type checking contexts", {"push_tc_context": one}, {"pop_tc_context": one}),
    Res("relprod", "the relational product context", {"Begin_RelProd": one}, {"End_RelProd": one}),
    Res("tstr", "temporary string managers", {"new_temp_str_mgr": one}, {"free_temp_str_mgr": one}),
    Res("trace", "the function trace", {"push_trace_fn": one}, {"pop_trace_fn": one}),
    Res("vdb", "vector databases", {"VDB_create": one}, {"VDB_destroy": one}),
    Res("sha", "digest contexts", {"Begin_SHA256": one}, {"End_SHA256": one}),
]


def bufcount(e):
    """(buffer, factor) of k * number of elements of a buffer"""
    e = strip(e)
    if e[0] == "bin" and e[3] == "*":
        for a, b in ((e[4], e[5]), (e[5], e[4])):
            k = const(a)
            r = bufcount(b)
            if k is not None and r is not None:
                return (r[0], r[1] * k)
    if e[0] == "mem" and e[4] == "buf_size":
        for s in walk(e):
            if s[0] == "var" and s[4] != "s" or s[0] == "var":
                return (s[3], 1)
    return None


def add(d, r, k):
    m = dict(d)
    v = m.get(r, 0) + k
    v = max(-LIM, min(LIM, v))
    if v:
        m[r] = v
    else:
        m.pop(r, None)
    return tuple(sorted(m.items()))


def plus(d, e):
    for r, k in e:
        d = add(d, r, k)
    return d


def unknown(d, r):
    """the change of r is not known any more"""
    return tuple(sorted([y for y in d if y[0] != r and y[0] != r + "?"] + [(r + "?", 1)]))


class NestFlow(PathFlow):
    def __init__(self, P, f, an, inject):
        super().__init__(P, f, cap=160)
        self.an, self.inject = an, inject
        self.throws = {}
        self.aborts = {}
        self.caught = {}
        self.choice = {}
        self.pending = None
        self.toglobal = set()
        self.pos = {p[0]: i for i, p in enumerate(f.params)}
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] in ("g", "s"):
                self.toglobal.add(id(strip(e[5])))

    # client state: (deltas, armed environments)
    def envname(self, e):
        return show(e)

    def shared(self, x, sgn):
        """does the context live in a global variable?"""
        if sgn < 0:
            v = strip(x[4][0])
            return v[0] == "var" and v[4] in ("g", "s")
        return id(x) in self.toglobal

    def here(self, e, x):
        """the change made by a callee, with contexts handed over as arguments or as its result named as the caller has them"""
        if not any(r.startswith("sop") or "*" in r for r, k in e):
            return e
        out = ()
        for r, k in e:
            if r.startswith("sop@"):
                i = int(r[4:])
                a = strip(x[4][i]) if i < len(x[4]) else None
                if a is not None and a[0] == "var" and a[4] in ("g", "s"):
                    r = "gsop"
                elif a is not None and a[0] == "var" and a[3] in self.pos:
                    r = "sop@%d" % self.pos[a[3]]
                else:
                    r = "sop"
            elif r == "sop" and k > 0 and id(x) in self.toglobal:
                r = "gsop"
            elif "*" in r:
                r, i = r.split("*")
                a = x[4][int(i)] if int(i) < len(x[4]) else None
                v = self.value(a, self.facts) if a is not None else None
                if isinstance(v, int):
                    k *= v
                elif a is not None and strip(a)[0] == "var" and strip(a)[3] in self.pos:
                    r = "%s*%d" % (r, self.pos[strip(a)[3]])
                else:
                    out = unknown(out, r)
                    continue
            out = add(out, r, k)
        return out

    def throw(self, env, d, armed, x):
        if env in ABORT and env not in armed:
            # who catches this is known only at run time; what is open here stays open
            for r, k in d:
                if k > 0 and r not in ("envp", "ctx"):
                    self.aborts.setdefault(r, x)
            self.throws.setdefault((env, ()), x[1])
            return
        if env in armed:
            self.caught.setdefault(env, set()).add(d)
        else:
            self.throws.setdefault((env, d), x[1])

    def event(self, x, c):
        d, armed = c
        if x[0] == "bin" and x[3] == "=":
            l = strip(x[4])
            if l[0] == "var" and l[3] == "start_envp":
                r = strip(x[5])
                armed = armed - {"*start_envp"}
                d = tuple(y for y in d if y[0] != "envp")
                if r[0] == "un" and r[3] == "&":
                    d = add(d, "envp", 1)
            return (d, armed)
        if x[0] != "call":
            return c
        n = callee(x)
        if n in ("setjmp", "_setjmp", "__sigsetjmp"):
            return (d, armed | {self.envname(x[4][0])})
        if n in ("longjmp", "siglongjmp", "_longjmp"):
            self.throw(self.envname(x[4][0]), d, armed, x)
            return c
        if n == "Restore_eval_context":
            d = tuple(y for y in d if y[0] not in ("envp", "ctx"))
            return (d, armed - {"*start_envp"})
        if n == "Record_eval_context":
            return (add(d, "ctx", 1), armed)
        if n is not None and n.split("@")[0] in self.an.prim:
            r, sgn, fn = self.an.prim[n.split("@")[0]]
            k = fn(x)
            if r == "sop" and self.shared(x, sgn):
                r = "gsop"
            elif r == "sop" and sgn < 0 and strip(x[4][0])[0] == "var" and strip(x[4][0])[3] in self.pos:
                r = "sop@%d" % self.pos[strip(x[4][0])[3]]
            self.an.nops.add((self.f.name, x[1], n))
            if k is None:
                v = self.value(x[4][0], self.facts)
                if isinstance(v, int):
                    return (add(d, r, sgn * v), armed)
                b = bufcount(x[4][0])
                if b is None:
                    a = strip(x[4][0])
                    if a[0] == "var" and a[3] in self.pos:
                        return (add(d, "%s*%d" % (r, self.pos[a[3]]), sgn), armed)
                    return (unknown(d, r), armed)
                # as many as there are elements in the buffer: see push_buf
                return (add(d, r + "~" + b[0], -1), armed)
            return (add(d, r, sgn * k), armed)
        if n in ("push_buf", "new_buf"):
            v = strip(x[4][0])
            if v[0] == "un" and v[3] == "&" and strip(v[4])[0] == "var":
                b = strip(v[4])[3]
                for r, k in self.an.links.get(b, ()):
                    d = add(d, r, -k) if n == "push_buf" else add(d, r + "~" + b, 1)
                return (d, armed)
        if n in self.P.funcs:
            s = self.an.summary(n)
            for env, e in s.throws:
                self.throw(env, plus(d, self.here(e, x)), armed, x)
            if not s.rets:
                return None
            ch = self.choice.get(id(x))
            if ch is None:
                ds = {e for v, e in s.rets}
                if len(ds) > 1:
                    self.pending = (x, s.rets)
                    return None
                ch = next(iter(ds))
            return (plus(d, self.here(ch, x)), armed)
        return c

    def tr(self, n, st):
        self.pending = None
        self.choice = {}
        out = super().tr(n, st)
        if self.pending is None:
            return out
        return self.alts(n, st, {})

    def alts(self, n, st, done):
        x, rets = self.pending
        res = []
        for v, e in rets:
            ch = dict(done)
            ch[id(x)] = e
            self.choice = ch
            self.pending = None
            o = super().tr(n, st)
            if self.pending is not None:
                if len(ch) < 3:
                    res += self.alts(n, st, ch)
                continue
            for s in o:
                c, facts = s
                if v is not None and v != "any":
                    y = strip(n.expr) if n.kind != "d" else n.expr[2]
                    if n.kind == "d" and y is not None and strip(y) is x:
                        self.deps[n.expr[0]] = frozenset([n.expr[0]])
                        facts = frozenset(z for z in facts if z[0] != n.expr[0]) | {(n.expr[0], v)}
                    elif n.kind == "e" and y[0] == "bin" and y[3] == "=" and strip(y[5]) is x and strip(y[4])[0] == "var":
                        facts = self.setfact(facts, y[4], v)
                    elif n.kind == "b":
                        tv = self.btruth(y, x, v)
                        if tv is not None:
                            res.append((("$br", tv, c), facts))
                            continue
                        if y[0] == "bin" and y[3] in ("==", "!="):
                            z = strip(y[4])
                            if z[0] == "bin" and z[3] == "=" and strip(z[5]) is x and strip(z[4])[0] == "var":
                                facts = self.setfact(facts, z[4], v)
                    elif n.kind == "ret" and y is x:
                        facts = facts | {("$ret", v)}
                res.append((c, facts))
        self.choice = {}
        return res

    def btruth(self, y, x, v):
        if y is x:
            return v == "nz" or bool(v)
        if y[0] == "bin" and y[3] in ("==", "!=") and strip(y[4]) is x and const(y[5]) is not None:
            k = const(y[5])
            if v == "nz":
                return None if k != 0 else y[3] == "!="
            return (v == k) == (y[3] == "==")
        if y[0] == "un" and y[3] == "!":
            t = self.btruth(strip(y[4]), x, v)
            return None if t is None else not t
        return None

    def sj(self, n):
        if n.expr is None:
            return None
        for x in walk(n.expr if n.kind != "d" else (n.expr[2] or ["int", 0, 0, 0, None])):
            if x[0] == "call" and callee(x) in ("setjmp", "_setjmp", "__sigsetjmp"):
                return self.envname(x[4][0])
        return None

    def edge(self, n, label, st):
        env = self.sj(n) if n.kind in ("b", "sw") else None
        if env is not None:
            c, facts = st
            if isinstance(c, tuple) and c and c[0] == "$inj":
                first = False
                c = c[1]
            else:
                first = True
            # which way does the direct return (0) go?
            if n.kind == "b":
                x = strip(n.expr)
                zero = (x[0] == "bin" and x[3] == "==") or (x[0] == "un" and x[3] == "!")
                taken = (label == "T") == zero
                if taken != first:
                    return None
            else:
                isz = label[0] == "C" and label[1] == 0
                if isz != first:
                    return None
            return (c, facts)
        return super().edge(n, label, st)

    def run(self, init):
        # states that come back through a setjmp are added until nothing new is thrown
        g = cfg(self.P, self.f)
        sj = [(n, self.sj(n)) for n in g.nodes if n.kind in ("b", "sw")]
        sj = [(n, e) for n, e in sj if e is not None]
        if not sj:
            return super().run(init)
        base_tr = self.tr
        known = {}

        def tr(n, st):
            out = base_tr(n, st)
            e = dict((a.id, b) for a, b in sj).get(n.id)
            if e is not None:
                out = [o for o in out]
                for d in known.get(e, ()):
                    arm = frozenset()
                    for o in list(out):
                        arm = o[0][1]
                        break
                    out.append((("$inj", (d, arm - {e})), frozenset()))
            return out
        for _ in range(8):
            self.tr = tr
            out = super().run(init)
            if all(known.get(e, set()) >= v for e, v in self.caught.items()):
                return out
            for e, v in self.caught.items():
                known.setdefault(e, set()).update(v)
        return out


class Sum:
    def __init__(self):
        self.rets, self.throws = set(), {}


class Nest:
    def __init__(self, P, table=TABLE, noret=frozenset()):
        self.P = P
        self.prim = {}
        for r in table:
            for n, f in r.opens.items():
                self.prim[n] = (r.name, 1, f)
            for n, f in r.closes.items():
                self.prim[n] = (r.name, -1, f)
        self.sums = {}
        self.nops = set()
        self.unknown = {}
        self.broken = {}
        self.conflict = {}
        self.aborts = {}
        self.defaulted = set()
        self.exits = {}
        # buffers that keep as many elements as something has been pushed
        self.links = {}
        for f in P.funcs.values():
            for c in calls_of(f):
                n = callee(c)
                if n is not None and n.split("@")[0] in self.prim and self.prim[n.split("@")[0]][2](c) is None:
                    b = bufcount(c[4][0])
                    if b is not None:
                        self.links.setdefault(b[0], set()).add((self.prim[n.split("@")[0]][0], b[1]))
        self.solve()

    def summary(self, n):
        s = self.sums.get(n)
        if s is None:
            s = Sum()
            s.rets = {(None, ())}
        return s

    def relevant(self):
        """functions from which an operation can be reached"""
        P = self.P
        calls, hit = {}, set()
        for f in P.funcs.values():
            cs = set()
            for c in calls_of(f):
                n = callee(c)
                if n is not None and n.split("@")[0] in self.prim or n in ("longjmp", "_longjmp", "siglongjmp", "Record_eval_context"):
                    hit.add(f.name)
                elif n in P.funcs:
                    cs.add(n)
            for e in all_exprs(f):
                if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[3] == "start_envp":
                    hit.add(f.name)
            calls[f.name] = cs
        rev = {}
        for a, cs in calls.items():
            for c in cs:
                rev.setdefault(c, set()).add(a)
        work, seen = list(hit), set(hit)
        while work:
            for r in rev.get(work.pop(), ()):
                if r not in seen:
                    seen.add(r)
                    work.append(r)
        return {n for n in seen if n.split("@")[0] not in self.prim}, calls, rev

    def solve(self):
        rel, calls, rev = self.relevant()
        self.rel = rel
        # recursion starts from the contract that nothing changes
        for n in rel:
            self.sums[n] = Sum()
            self.sums[n].rets = {(None, ())}
        # callees first
        orderl, st = [], {}

        def dfs(n):
            stack = [(n, iter(sorted(calls[n] & rel)))]
            st[n] = 1
            while stack:
                m, it = stack[-1]
                for c in it:
                    if c not in st:
                        st[c] = 1
                        stack.append((c, iter(sorted(calls[c] & rel))))
                        break
                else:
                    orderl.append(m)
                    stack.pop()
        for n in sorted(rel):
            if n not in st:
                dfs(n)
        pos = {n: i for i, n in enumerate(orderl)}
        import heapq
        heap = list(range(len(orderl)))
        queued = set(heap)
        visits = {}
        while heap:
            i = heapq.heappop(heap)
            queued.discard(i)
            n = orderl[i]
            visits[n] = visits.get(n, 0) + 1
            if visits[n] > 40:
                self.broken[n] = "does not settle"
                continue
            if self.compute(n):
                for r in rev.get(n, ()):
                    if r in rel and pos[r] not in queued:
                        queued.add(pos[r])
                        heapq.heappush(heap, pos[r])

    def compute(self, n):
        f = self.P.funcs[n]
        fl = NestFlow(self.P, f, self, None)
        try:
            out = fl.run(((), frozenset()))
        except AnalysisBroken as e:
            self.broken[n] = str(e)
            return False
        s = Sum()
        ex = []
        for node, st, c, v in out:
            for k, w in st[1]:
                if k == "$ret":
                    v = w
            d = c[0]
            lost = {r[:-1] for r, k in d if r.endswith("?")}
            for r in lost:
                self.unknown[(n, r)] = f.line
            lost = {r for m, r in self.unknown if m == n}
            if lost:
                d = tuple(y for y in d if y[0].rstrip("?").split("~")[0].split("*")[0] not in lost)
            s.rets.add((v, d))
            ex.append((node, st, d, v))
        s.throws = dict(fl.throws)
        self.exits[n] = (fl, ex)
        self.aborts[n] = fl.aborts
        # a contract for the callers: one change of depth, or one per constant returned
        byd, byv = {}, {}
        for v, d in s.rets:
            byd.setdefault(d, set()).add(v)
            byv.setdefault(v, set()).add(d)
        self.conflict.pop(n, None)
        if len(byd) == 1:
            s.rets = {(None, next(iter(byd)))}
        elif None in byv or ("nz" in byv and any(v not in (0, "nz") for v in byv)) or any(len(x) > 1 for x in byv.values()):
            self.conflict[n] = sorted(byd)
            s.rets = {(None, ())}
        # throws: at most the kind of leak matters
        old = self.sums[n]
        ch = old.rets != s.rets or set(old.throws) != set(s.throws)
        self.sums[n] = s
        return ch
