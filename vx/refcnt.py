"""Counting of the references between graph nodes.

A node records how many references reach it (saturating), and is freed when
the last one is given up, so every reference a function stores in a node has
to be counted: the node was just made (it comes with one), its count was
incremented, or another reference to it was given up by overwriting the node
that held it.  Each function is analysed path by path: values of type g_ptr
are terms (parameters, fields of terms, fresh nodes, results of calls), and
every term has a balance

    fresh +1, INC_REFCNT +1, stored in a node -1, DEC_REF_CNT -1,
    the node that refers to it is overwritten +1.

A balance below zero when the function is left is a reference that is not
counted.  Calls of functions of the program act by their summaries, computed
to a fixpoint; the effects on parameters and on their fields are the callers'."""
from .facts import *
from .cfg import cfg, order
from .paths import PathFlow, const, base, canon, modsets
from .live import live_out

LOADS = {"f_GET_CONS_HD": "L", "f_GET_CONS_TL": "R", "f_GET_APPLY_LEFT": "L", "f_GET_APPLY_RIGHT": "R"}
GLOADS = {"LAMBDA_VAR_LEAF": "L"}
SETG = {"CONS_HD": "L", "CONS_TL": "R", "APPLY_LEFT": "L", "APPLY_RIGHT": "R"}
NUL = ("0",)
UNK = ("?",)
# found through memory that is not a node (a record, a buffer, a global, an
# external function): whoever put the node there has a reference of its own
FREEROOT = ("0", "?", "m", "g", "out", "ext")
FREE = {"dec_ref_cnt"}
INPLACE = ("traverse_left",)
MAXD = 4


def gtype(f, ti):
    t = f.types[ti]
    return t == "g_ptr" or f.ctypes[ti] in ("g_rec *", "struct g_rec *", "g_ptr")


def root(t):
    while t[0] in ("ld", "was"):
        t = t[2]
    return t


def depth(t):
    n = 0
    while t[0] in ("ld", "was"):
        n += 1
        t = t[2]
    return n


def mentions(t, u):
    while True:
        if t == u:
            return True
        if t[0] not in ("ld", "was"):
            return False
        t = t[2]


def giveback(bal, al):
    """the result was not kept: what it took of its arguments is there again"""
    d = dict(bal)
    for u in al:
        r = root(u)
        if r[0] in FREEROOT or (r[0] == "it" and r[2] in FREEROOT):
            continue
        d[u] = d.get(u, 0) + 1
        if not d[u]:
            del d[u]
    return list(d.items())


def ofparam(t):
    r = root(t)
    return r[0] == "it" and r[2] == "p"


def settle(bal, rt=None):
    """balances when the function is left"""
    b = list(bal)
    for t, n in bal:
        if n > 0 and t[0] == "new" and len(t) > 3 and t != rt:
            b = giveback(b, t[3])
    # a node that was cut off but never released keeps all it refers to
    kept = [t for t, n in b if n > 0 and root(t)[0] == "p" and t[0] in ("was", "ld")]
    out = {}
    for t, n in b:
        if n < 0 and kept and (t[0] == "lost" or ofparam(t) or any(mentions(t, u) for u in kept if u != t)):
            continue
        out[t] = n
    return out


class Summ:
    """ret: 'owned', 'borrowed', 'none' or a term over parameters; bal: {term: delta};
    over: set of (term, field) overwritten; lost: lines where references to what
    hangs below a parameter are made without counting"""
    __slots__ = ("ret", "bal", "over", "mixed", "lost")

    def __init__(self, ret="none", bal=(), over=(), mixed=False, lost=()):
        self.ret, self.bal, self.over, self.mixed = ret, dict(bal), frozenset(over), mixed
        self.lost = frozenset(lost)

    def key(self):
        return (self.ret if not isinstance(self.ret, frozenset) else tuple(sorted(self.ret, key=str)), tuple(sorted(self.bal.items(), key=str)), tuple(sorted(self.over, key=str)), self.mixed, self.lost)


class RefFlow(PathFlow):
    """client state: (env, bal, over); env: frozenset of (variable, term)"""

    def __init__(self, E, f, report=None, cap=64, maxd=MAXD):
        super().__init__(E.P, f, cap=cap)
        self.maxd = maxd
        self.E, self.rep = E, report
        self.params = [p[0] for p in f.params]
        self.sites = {}
        self.line = f.line
        self.liveout = live_out(E.P, f)
        self.locals = set(self.params) | {d[0] for st in stmts(f.body) if st[0] == "decl" for d in st[2]}
        self.keyvars = {}
        self._cur = None

    # ---- state ----
    def site(self, e):
        k = id(e)
        if k not in self.sites:
            self.sites[k] = len(self.sites)
        return self.sites[k]

    def bal(self, c, t):
        for a, b in c[1]:
            if a == t:
                return b
        return 0

    def add(self, c, t, d, line=None):
        r = root(t)
        if r[0] in FREEROOT or (r[0] == "it" and r[2] in FREEROOT):
            return c
        if t[0] == "g" and t[1] in self.E.saturated:
            return c
        n = max(-3, min(4, self.bal(c, t) + d))
        return (c[0], frozenset(x for x in c[1] if x[0] != t) | (frozenset([(t, n)]) if n else frozenset()), c[2])

    def setvar(self, c, v, t):
        c = self.forget_deref(c, v)
        return (frozenset(x for x in c[0] if x[0] != v) | (frozenset([(v, t)]) if t is not None else frozenset()), c[1], c[2])

    def forget_deref(self, c, v):
        """what was read through pointer variable v, or a structure found through it, is another value now"""
        def stale(t):
            r = root(t)
            return r[0] == "m" and v in r[2] or r[0] == "it" and r[1] == "*" + v
        if any(v in self.keyvars.get(k, ()) for k, _ in c[0]):
            c = (frozenset(x for x in c[0] if v not in self.keyvars.get(x[0], ())), c[1], c[2])
        if any(stale(t) for _, t in c[0]) or any(stale(t) for t, _ in c[1]):
            return self.rename(c, stale, UNK)
        return c

    def rename(self, c, test, new):
        """terms that satisfy test stand for something else from now on"""
        def r(t):
            if test(t):
                return new
            return t
        env = frozenset((v, r(t)) for v, t in c[0])
        bal = []
        for t, n in c[1]:
            if test(t):
                if new == UNK:
                    if n < 0 and ofparam(t):
                        bal.append((("lost", self.f.name, self.line), -1))
                    elif n < 0:
                        self.short(c, t, n, "when the loop comes round")
                    continue
            bal.append((r(t), n))
        return (env, frozenset(dict(bal).items()), c[2])

    def short(self, c, t, n, when):
        if self.rep is not None and root(t)[0] not in ("p",):
            self.rep(self.line, self, t, n, when)

    def fresh(self, c, t):
        """site t produces a new value"""
        if any(mentions(u, t) for _, u in c[0]) or any(mentions(u, t) for u, _ in c[1]):
            c = self.rename(c, lambda u: mentions(u, t), UNK)
        return c

    # ---- terms ----
    def term(self, e, c):
        e = strip(e)
        if e is None:
            return UNK
        k = e[0]
        if k == "int":
            return NUL if e[3] == 0 else UNK
        if k == "var":
            if e[4] in ("l", "p"):
                for v, t in c[0]:
                    if v == e[3]:
                        return t
                return UNK
            return ("g", e[3])
        if k == "call":
            n = callee(e)
            key = "$%d" % self.site(e)
            for v, t in c[0]:
                if v == key:
                    return t
            return UNK
        if k == "bin" and e[3] == "=":
            return self.term(e[4], c)
        if k in ("mem", "idx") or (k == "un" and e[3] == "*"):
            vs = set()
            s = canon_all(e, vs)
            if s is None:
                return self.buffered(e, c) or UNK
            for v, t in c[0]:
                if v == s:
                    return t
            t = self.buffered(e, c) if gtype(self.f, e[2]) else None
            if t is not None:
                return t
            return ("m", s, frozenset(v for v in vs))
        if k == "cond":
            a, b = self.term(e[4], c), self.term(e[5], c)
            return a if a == b else UNK
        return UNK

    def load(self, c, x, fld, b):
        if b[0] in ("?", "0"):
            return c, UNK
        t = ("ld", fld, b)
        if depth(t) > self.maxd:
            o = t
            t = self.it(x, b)
            c = self.fresh(c, t)
            if not mentions(o, t):
                c = self.setvar(c, "^%s" % t[1], o)
        return c, t

    def it(self, x, b):
        r = root(b)
        return ("it", self.site(x), r[2] if r[0] == "it" else r[0])

    def overwrite(self, c, b, fld, x):
        """the reference of field fld of b is given up"""
        if b[0] == "0":
            return c
        if b[0] == "?":
            # perhaps the node an element of the list at hand was found in
            for u in {u for _, u in c[0] if u[0] == "it"} | {u for u, _ in c[1] if u[0] == "it"}:
                c = self.add(c, u, 1)
            return c
        for v, u in c[0]:
            if v[0] == "^" and u == ("ld", fld, b):
                for w in {w for _, w in c[0] if w[0] == "it" and "^%s" % w[1] == v} | {w for w, _ in c[1] if w[0] == "it" and "^%s" % w[1] == v}:
                    c = self.add(c, w, 1)
        t = ("ld", fld, b)
        used = any(mentions(u, t) for _, u in c[0]) or any(mentions(u, t) for u, _ in c[1])
        first = b[0] == "p" and (b, fld) not in c[2]
        if b[0] == "p":
            c = (c[0], c[1], c[2] | {(b, fld)})
        if not used:
            return self.add(c, t, 1) if first else c
        c = self.add(c, t, 1)
        s = self.site(x)

        def r(u):
            if u == t:
                return ("was", fld, b, s)
            if u[0] == "ld":
                v = r(u[2])
                return u if v is u[2] else ("ld", u[1], v)
            if u[0] == "was":
                v = r(u[2])
                return u if v is u[2] else ("was", u[1], v, u[3])
            if u[0] == "new" and len(u) > 3:
                al = tuple(r(w) for w in u[3])
                return u if al == u[3] else u[:3] + (al,)
            return u
        env = frozenset((v, r(u)) for v, u in c[0])
        bal = {}
        for u, n in c[1]:
            u = r(u)
            bal[u] = bal.get(u, 0) + n
        return (env, frozenset(bal.items()), c[2])

    def store(self, c, b, fld, v, x):
        c = (c[0] | {("%0", v)}, c[1], c[2])
        return self.spend(self.overwrite(c, b, fld, x), ("%0",))

    def spend(self, c, names):
        """what was put in a node, under the names it has now"""
        vals = dict(c[0])
        c = (frozenset(x for x in c[0] if x[0] not in names), c[1], c[2])
        for n in names:
            if n in vals:
                c = self.add(c, vals[n], -1)
        return c

    # ---- events ----
    def decl(self, name, ti, init, c):
        if gtype(self.f, ti) and init is not None:
            return self.setvar(c, name, self.term(init, c))
        return self.setvar(c, name, None)

    def local_buf(self, e):
        e = strip(e)
        if e is not None and e[0] == "un" and e[3] == "&":
            e = strip(e[4])
            if e[0] == "var" and e[4] == "l":
                return e[3]
        return None

    def cursors(self):
        """pointer variables into local buffers"""
        if self._cur is None:
            self._cur = {}
            for st in stmts(self.f.body):
                if st[0] == "decl":
                    for d in st[2]:
                        if d[2] is not None:
                            self.cursor(d[0], d[2])
            for e in all_exprs(self.f):
                if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var":
                    self.cursor(strip(e[4])[3], e[5])
        return self._cur

    def cursor(self, v, e):
        for s in walk(e):
            b = self.local_buf(s)
            if b is not None:
                self._cur.setdefault(v, set()).add(b)

    def buffered(self, e, c):
        """a node read through a pointer into a local buffer that holds parts of arguments"""
        if e[0] == "un" and strip(e[4])[0] != "var":
            for s in walk(e[4]):
                b = self.local_buf(s)
                if b is not None and ("&" + b, NUL) in c[0]:
                    return ("it", "@" + b, "p")
        if e[0] != "un" or strip(e[4])[0] != "var":
            return None
        v = strip(e[4])[3]
        if any(("&" + b, NUL) in c[0] for b in self.cursors().get(v, ())):
            return ("it", "*" + v, "p")
        return None

    def put(self, c, e, t):
        return self.setvar(c, "$%d" % self.site(e), t)

    def event(self, x, c):
        self.line = x[1]
        if x[0] == "bin" and x[3] == "=":
            l = strip(x[4])
            if l[0] == "var" and l[4] in ("l", "p"):
                return self.setvar(c, l[3], self.term(x[5], c) if gtype(self.f, l[2]) else None)
            if l[0] in ("mem", "idx", "un") and gtype(self.f, l[2]):
                vs = set()
                s = canon_all(l, vs)
                if s is not None:
                    t = self.term(x[5], c)
                    self.keyvars[s] = frozenset(vs)
                    return self.setvar(c, s, t)
            return c
        if x[0] == "un" and x[3] in ("++", "--", "p++", "p--"):
            l = strip(x[4])
            if l[0] == "var":
                return self.forget_deref(c, l[3])
            return c
        if x[0] != "call":
            return c
        n, a = callee(x), x[4]
        if n in LOADS or n in ("VX_INC_REFCNT", "f_SET_APPLY_LEFT", "f_SET_APPLY_RIGHT") or n is not None and n.startswith("VX_") and n not in ("VX_SETF", "VX_SETP"):
            for y in a:
                if y[0] != "str":
                    self.used(c, self.term(y, c), x)
        if n in LOADS:
            b = self.term(a[0], c)
            c, t = self.load(c, x, LOADS[n], b)
            return self.put(c, x, t)
        if n == "VX_GETG":
            c, t = self.load(c, x, "L", self.term(a[1], c))
            return self.put(c, x, t)
        if n == "VX_INC_REFCNT":
            return self.add(c, self.term(a[0], c), 1)
        if n in FREE:
            t = self.term(a[0], c)
            self.used(c, t, x)
            c = self.add(c, t, -1)
            return self.released(c, t, x)
        if n == "VX_SETG":
            k = strip(a[0])[3]
            return self.store(c, self.term(a[1], c), SETG.get(k, "L"), self.term(a[2], c), x)
        if n in ("f_SET_APPLY_LEFT", "f_SET_APPLY_RIGHT"):
            return self.store(c, self.term(a[0], c), "L" if n.endswith("LEFT") else "R", self.term(a[1], c), x)
        if n == "VX_SETF":
            k = strip(a[0])[3]
            if k == "TYPE":
                b = self.term(a[1], c)
                c = self.overwrite(c, b, "L", x)
                return self.overwrite(c, b, "R", x)
            if k == "REFCNT":
                if const(a[2]) == 3:
                    return self.add(c, self.term(a[1], c), 4)
            return c
        if n == "VX_OVERWRITE":
            b = self.term(a[0], c)
            c = self.overwrite(c, b, "L", x)
            return self.overwrite(c, b, "R", x)
        if n is not None and n.startswith("VX_MK_"):
            b = self.term(a[0], c)
            vals = [self.term(y, c) for y in a[1:]] if n in ("VX_MK_APPL", "VX_MK_CONS", "VX_MK_LAMBDA") else []
            if n == "VX_MK_LAMBDA":
                vals = vals[1:]
            tmp = ["%%%d" % i for i in range(len(vals))]
            c = (c[0] | frozenset(zip(tmp, vals)), c[1], c[2])
            c = self.overwrite(c, b, "L", x)
            c = self.overwrite(c, b, "R", x)
            return self.spend(c, tmp)
        if n is not None and n.startswith("VX_"):
            return c
        return self.callf(x, n, a, c)

    def released(self, c, t, x):
        """the last reference the function knew of is gone"""
        r = root(t)
        if r[0] in FREEROOT or r[0] == "it" or self.bal(c, t) > 0 or t[0] == "g":
            return c
        return (c[0] | {("~%s" % self.site(x), t)}, c[1], c[2])

    def used(self, c, t, x):
        """t is about to be looked into or referred to again"""
        if self.rep is None or t[0] in ("?", "0"):
            return
        for v, d in c[0]:
            if v[0] == "~" and mentions(t, d):
                u = t
                while u != d and self.bal(c, u) <= 0:
                    u = u[2]
                if u == d and self.bal(c, d) <= 0:
                    self.rep(x[1], self, t, 0, "released")

    def callf(self, x, n, a, c):
        f = self.P.funcs.get(n) if n is not None else None
        isg = gtype(self.f, x[2])
        args = [self.term(y, c) for y in a]
        s = self.E.summ.get(n) if f is not None else None
        rt = UNK
        if f is not None and f.body is not None:
            for t, p in zip(args, f.params):
                if gtype(f, p[1]):
                    self.used(c, t, x)
        if s is not None:
            def sub(t):
                if t[0] == "p":
                    return args[t[1]] if t[1] < len(args) else UNK
                if t[0] == "ld":
                    b = sub(t[2])
                    return UNK if b[0] in ("?", "0") else ("ld", t[1], b)
                return UNK
            if isinstance(s.ret, frozenset):
                al = tuple(sorted({sub(t) for t in s.ret}, key=str))
                rt = ("new", self.site(x), n, al)
                c = self.fresh(c, rt)
                c = self.add(c, rt, 1)
            if isinstance(s.ret, tuple):
                rt = sub(s.ret)
                if depth(rt) > self.maxd:
                    rt = self.it(x, rt)
                    c = self.fresh(c, rt)
            bals = [(sub(t), d) for t, d in s.bal.items()]
            overs = [(sub(t), fl) for t, fl in s.over]
            done = set()
            for t, d in bals:
                c = self.add(c, t, d)
            for b, fl in overs:
                if b[0] in ("?", "0"):
                    continue
                # the credit is in the balance already; only the renaming is left
                c2 = self.overwrite(c, b, fl, x)
                # overwrite() credits again when the field was known: take it back
                was = ("was", fl, b, self.site(x))
                if any(u == was for u, _ in c2[1]) or any(mentions(u, was) for _, u in c2[0]):
                    c2 = self.add(c2, was, -1)
                elif self.bal(c2, ("ld", fl, b)) > self.bal(c, ("ld", fl, b)):
                    c2 = self.add(c2, ("ld", fl, b), -1)
                c = c2
        if s is not None and s.lost and any(root(t)[0] == "p" or ofparam(t) for t in args):
            c = (c[0], c[1] | {(t, -1) for t in s.lost}, c[2])
        if isg and rt == UNK:
            if s is not None and s.ret == "owned":
                rt = ("new", self.site(x), n)
                c = self.fresh(c, rt)
                c = self.add(c, rt, 1)
            elif n in self.E.makers:
                rt = ("new", self.site(x), n)
                c = self.fresh(c, rt)
                c = self.add(c, rt, 1)
            elif s is not None and s.ret == "borrowed":
                rt = ("it", self.site(x), "p") if any(root(t)[0] == "p" or ofparam(t) for t in args) else ("ret", self.site(x), n)
                c = self.fresh(c, rt)
            else:
                rt = ("ext", self.site(x), n or "*")
                c = self.fresh(c, rt)
        if n in LOOKUP:
            # the table keeps its own reference
            isg, rt = True, ("ret", self.site(x), n)
            c = self.fresh(c, rt)
        if n is not None and n.lower() == "push_buf" and len(a) > 1:
            b, y = self.local_buf(a[0]), strip(a[1])
            if b is not None and y is not None and y[0] == "un" and y[3] == "&":
                t = self.term(y[4], c)
                if root(t)[0] == "p" or ofparam(t):
                    c = (c[0] | {("&" + b, NUL)}, c[1], c[2])
        # a variable whose address is passed may hold anything afterwards
        for y in a:
            y = strip(y)
            if y is not None and y[0] == "un" and y[3] == "&" and n not in KEEP:
                v = strip(y[4])
                if v[0] == "var" and v[4] in ("l", "p") and gtype(self.f, v[2]):
                    t = ("out", self.site(y), n or "*")
                    if n is not None and n.lower() == "pop_buf" and ("&%s" % self.local_buf(a[0]), NUL) in c[0]:
                        t = ("it", self.site(y), "p")
                    c = self.fresh(c, t)
                    c = self.setvar(c, v[3], t)
        if isg:
            c = self.put(c, x, rt)
        return c

    def tr(self, n, st):
        out = []
        for o in super().tr(n, st):
            out.append(o)
        if n.kind not in ("ret", "b", "sw"):
            live = self.liveout[n.id]
            out = [(self.prune(o[0], live, n.line), self.pfacts(o[1], live)) for o in out]
        return out

    def pfacts(self, facts, live):
        return frozenset(x for x in facts if all(v in live or "#" not in v for v in self.deps.get(x[0], (x[0],))))

    def prune(self, c, live, line):
        if isinstance(c, tuple) and c and c[0] == "$br":
            return (c[0], c[1], self.prune(c[2], live, line))
        env = frozenset(x for x in c[0] if x[1] != UNK and (x[0] in live or x[0][0] == "^" or (x[0][0] != "$" and x[0] not in self.locals and self.alive(x[0], live))))
        bal, gone = [], []
        for t, n in c[1]:
            r = root(t)
            if r[0] in ("p", "g", "lost"):
                keep = True
            elif r[0] == "it" and str(r[1])[0] == "*" and r[1][1:] in live:
                keep = True
            elif r[0] == "m":
                keep = all(v in live or "#" not in v for v in r[2])
            else:
                keep = any(mentions(t, u) for v, u in env if u[0] not in ("0", "p", "g") and v[0] != "^")
            if keep:
                bal.append((t, n))
            else:
                gone.append((t, n))
        for t, n in gone:
            if n > 0 and t[0] == "new" and len(t) > 3:
                bal = giveback(bal, t[3])
        for t, n in gone:
            if n < 0 and not any(u[0] == "new" and len(u) > 3 and t in u[3] and k > 0 for u, k in c[1]):
                if ofparam(t):
                    # covered when what it hangs on is never given up
                    bal.append((("lost", self.f.name, line), -1))
                else:
                    self.line = line
                    self.short(c, t, n, "from here on")
        return (env, frozenset(dict(bal).items()), c[2])

    def alive(self, key, live):
        """a structure or array found through variables: needed while they are"""
        return all(v in live or "#" not in v for v in self.keyvars.get(key, ()))

    def assume(self, e, truth, c):
        """x == NULL: there is no node to count"""
        e = strip(e)
        v = None
        if e[0] == "bin" and e[3] in ("==", "!="):
            if const(e[5]) == 0 and (e[3] == "==") == truth:
                v = e[4]
        elif e[0] == "un" and e[3] == "!" and truth:
            v = e[4]
        elif e[0] in ("var", "mem", "call") and not truth:
            v = e
        if v is not None:
            v = strip(v)
            if v[0] == "bin" and v[3] == "=":
                v = strip(v[4])
            if v[0] == "var" and v[4] in ("l", "p") and gtype(self.f, v[2]):
                t = self.term(v, c)
                if t not in (UNK, NUL):
                    c = (frozenset((a, NUL if b == t else b) for a, b in c[0]), frozenset(q for q in c[1] if q[0] != t), c[2])
        return c

    def analyse(self):
        env = []
        for i, p in enumerate(self.f.params):
            if gtype(self.f, p[1]) or self.f.types[p[1]] == "pointer":
                env.append((p[0], ("p", i)))
        outs = []
        for n, st, c, val in self.run((frozenset(env), frozenset(), frozenset())):
            if isinstance(c, tuple) and c and c[0] == "$br":
                c = c[2]
            rt = None
            if n.kind == "ret" and n.expr is not None and gtype_e(self.f, n.expr):
                rt = self.term(n.expr, c)
            self.line = n.line if n.kind == "ret" else self.f.line
            outs.append((n, st, c, rt))
        return outs


LOOKUP = {"find_hash"}
KEEP = {"push_buf", "Push_buf", "find_hash", "insert_hash"}


def gtype_e(f, e):
    s = strip(e)
    return gtype(f, e[2]) or (s is not None and gtype(f, s[2]))


def canon_all(e, vs):
    e = strip(e)
    if e is None:
        return None
    k = e[0]
    if k == "int":
        return str(e[3])
    if k == "var":
        vs.add(e[3])
        return e[3]
    if k == "mem":
        a = canon_all(e[3], vs)
        return None if a is None else "%s.%s" % (a, e[4])
    if k == "idx":
        a, b = canon_all(e[3], vs), canon_all(e[4], vs)
        return None if a is None or b is None else "%s[%s]" % (a, b)
    if k == "un" and e[3] == "*":
        a = canon_all(e[4], vs)
        return None if a is None else "*%s" % a
    if k == "bin" and e[3] in ("+", "-"):
        a, b = canon_all(e[4], vs), canon_all(e[5], vs)
        return None if a is None or b is None else "(%s%s%s)" % (a, e[3], b)
    return None


# (states per point, depth of terms)
LEVELS = [(64, MAXD), (400, MAXD), (200, 2), (200, 1)]


class Refs:
    def __init__(self, P, names, makers, skip=()):
        self.P, self.makers = P, makers
        # evaluation happens in place
        self.summ = {n: Summ(("p", 0)) for n in INPLACE if n in P.funcs}
        self.saturated = set()
        self.names = names
        self.skip = set(skip)
        self.broken = {}
        self.level, self.dead = {}, set()
        for f in P.funcs.values():
            for c in calls_of(f):
                if callee(c) == "VX_SETF" and strip(c[4][0])[3] == "REFCNT" and const(c[4][2]) == 3:
                    v = strip(c[4][1])
                    if v[0] == "var" and v[4] in ("g", "s"):
                        self.saturated.add(v[3])

    def one(self, n, report=None):
        """many states are kept, and positions in a list told apart less, only where that is needed"""
        while n not in self.dead:
            self.broken.pop(n, None)
            r = self.attempt(n, report, *LEVELS[self.level.get(n, 0)])
            if r[0] is not None:
                return r
            self.level[n] = self.level.get(n, 0) + 1
            if self.level[n] == len(LEVELS):
                self.dead.add(n)
        return None, None, Summ()

    def attempt(self, n, report, cap, maxd=MAXD):
        f = self.P.funcs[n]
        fl = RefFlow(self, f, report, cap, maxd)
        try:
            outs = fl.analyse()
        except AnalysisBroken as x:
            self.broken[n] = str(x)
            return None, fl, Summ()
        bal, over, rets, exits, lost = {}, None, set(), [], set()
        for node, st, c, rt in outs:
            b = settle(c[1], rt)
            lost |= {t for t in b if t[0] == "lost"} | {("lost", n, node.line) for t, k in b.items() if k < 0 and ofparam(t) and t != rt}
            if rt is not None:
                r = root(rt)
                if rt == NUL:
                    pass
                elif rt == UNK:
                    rets.add("unknown")
                elif r[0] in FREEROOT or (r[0] == "it" and r[2] in FREEROOT):
                    rets.add("owned")
                elif b.get(rt, 0) >= 1:
                    rets.add("owned")
                    b[rt] -= 1
                elif r[0] in ("new", "it") and b.get(r, 0) >= (1 if r[0] == "new" else 0) and rt is not r:
                    rets.add("owned")
                elif r[0] == "p" and rt[0] != "was":
                    rets.add(rt)
                else:
                    rets.add("borrowed")
                exits.append((b, c[2], rt if r[0] == "p" and rt[0] != "was" and rt in rets else None))
            else:
                exits.append((b, c[2], None))
        if len(rets) > 1 and not rets & {"borrowed", "unknown"}:
            ret = frozenset(t for t in rets if isinstance(t, tuple))
            if len(ret) > 4 or any(depth(t) > 2 for t in ret) or any(callee(x) == n for x in calls_of(f)):
                ret = "none"
        elif "unknown" in rets or not rets:
            ret = "none"
        elif len(rets) == 1:
            ret = next(iter(rets))
        else:
            ret = "borrowed"
        for b, ov, rt in exits:
            if rt is not None and isinstance(ret, frozenset):
                b[rt] = b.get(rt, 0) - 1
            pb = {t: n2 for t, n2 in b.items() if root(t)[0] == "p"}
            # what overwriting gave up, under the name it had on entry
            q = {}
            for t, n2 in pb.items():
                t = entry(t)
                if t is not None:
                    q[t] = q.get(t, 0) + n2
            for t in list(bal):
                bal[t] = min(bal[t], q.get(t, 0))
            for t, n2 in q.items():
                if t not in bal:
                    bal[t] = n2 if over is None else min(n2, 0)
            over = ov if over is None else over & ov
        mixed = len(rets) > 1
        return outs, fl, Summ(ret, {t: d for t, d in bal.items() if d}, over or (), mixed, lost)

    def summary(self, n):
        s = self.one(n)[2]
        return n, (s, self.level.get(n, 0), self.broken.get(n))

    def fixpoint(self, rounds=6):
        work = list(self.names)
        users = {}
        for n in self.names:
            for c in calls_of(self.P.funcs[n]):
                users.setdefault(callee(c), set()).add(n)
        for n in self.names:
            cfg(self.P, self.P.funcs[n])
            live_out(self.P, self.P.funcs[n])
        modsets(self.P)
        for r in range(rounds):
            nxt = set()
            for n, (s, level, why) in fork_map(self.summary, work):
                self.level[n] = level
                if why is not None:
                    self.dead.add(n)
                    self.broken[n] = why
                old = self.summ.get(n)
                if old is None or old.key() != s.key():
                    self.summ[n] = s
                    nxt |= users.get(n, set())
            work = [n for n in self.names if n in nxt]
            if not work:
                break
        return r


def entry(t):
    """the name a term had when the function was entered"""
    if t[0] == "p":
        return t
    b = entry(t[2])
    if b is None:
        return None
    return ("ld", t[1], b)




def fork_map(fn, items, jobs=8):
    """fn(item) for every item, in processes that share what was loaded"""
    import gc, os, pickle
    if len(items) < 2 * jobs:
        return [fn(x) for x in items]
    kids = []
    gc.freeze()
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            gc.disable()
            try:
                os.close(r)
                with os.fdopen(w, "wb") as o:
                    pickle.dump([fn(x) for x in items[k::jobs]], o)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as i:
            b = i.read()
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise AnalysisBroken("a worker of the analysis ended early")
        out += pickle.loads(b)
    return out
