"""Path summaries of C functions over symbolic terms.

A function is summarised as the list of its paths; a path is the facts its
tests establish, the effects it has in order (stores, calls, loops) and how it
ends.  A loop is itself an effect: one generic iteration is summarised from a
state in which what the loop changes is unknown, except that counters and list
cursors get their closed form.  Conditions fork, so that every C truth value
is known on a path; the simulator's symbolic values are Boolean formulas,
compared by truth table.  Helpers are entered; functions with a specification
of their own stay calls."""
import itertools
from .facts import *

T, F = ("T",), ("F",)


class Unsupported(Exception):
    pass


# ---- Boolean formulas over terms ----
def Not(a):
    return F if a == T else T if a == F else a[1] if a[0] == "not" else ("not", a)


def And(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T or a == b:
        return a
    return ("and", a, b)


def Or(a, b):
    return Not(And(Not(a), Not(b)))


def batoms(e, out=None):
    out = [] if out is None else out
    if e[0] in ("T", "F"):
        pass
    elif e[0] == "not":
        batoms(e[1], out)
    elif e[0] == "and":
        batoms(e[1], out)
        batoms(e[2], out)
    elif e not in out:
        out.append(e)
    return out


def beval(e, a):
    if e == T:
        return True
    if e == F:
        return False
    if e[0] == "not":
        return not beval(e[1], a)
    if e[0] == "and":
        return beval(e[1], a) and beval(e[2], a)
    return a[e]


def same(x, y):
    """the same Boolean function (of the same atoms)"""
    if x == y:
        return True
    ats = batoms(x)
    for a in batoms(y):
        if a not in ats:
            ats.append(a)
    if len(ats) > 12:
        raise Unsupported("formula over %d atoms" % len(ats))
    for vs in itertools.product((False, True), repeat=len(ats)):
        a = dict(zip(ats, vs))
        if beval(x, a) != beval(y, a):
            return False
    return True


# ---- linear terms ----
def lin(t):
    """(constant, {term: coefficient})"""
    if t[0] == "int":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x[0] == "elt" and not (flip and s == -1):
            if y[0] == "elt" and y[1] == x[1] and s == -1:
                return add(x[2], y[2], -1)
            c, d = lin(y)
            isz = ("ld", ("fld", x[1], "item_size"), "start")
            k = ("int", c)
            for t, n in d.items():
                if t == isz:
                    u = ("int", n)
                elif t[0] == "*" and isz in t[1]:
                    us = list(t[1])
                    us.remove(isz)
                    u = mul(us[0] if len(us) == 1 else ("*", tuple(us)), ("int", n))
                else:
                    u = mklin(0, {t: n})
                k = add(k, u)
            return ("elt", x[1], add(x[2], k, s))
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    r = dict(d1)
    for t, k in d2.items():
        r[t] = r.get(t, 0) + s * k
    return mklin(c1 + s * c2, r)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == "int":
            c, d = lin(y)
            return mklin(c * x[1], {t: k * x[1] for t, k in d.items()})
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    out = ("int", c1 * c2)
    r = {}
    for t, k in d1.items():
        r[t] = r.get(t, 0) + k * c2
    for t, k in d2.items():
        r[t] = r.get(t, 0) + k * c1
    for t, k in d1.items():
        for u, l in d2.items():
            fs = (list(t[1]) if t[0] == "*" else [t]) + (list(u[1]) if u[0] == "*" else [u])
            m = ("*", tuple(sorted(fs, key=repr)))
            r[m] = r.get(m, 0) + k * l
    return mklin(c1 * c2, r)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(s, x) for s in t)
    return False


def subst(t, x, y):
    if t == x:
        return y
    if isinstance(t, tuple):
        if t and t[0] == "lin":
            out = ("int", t[1])
            for u, k in t[2]:
                out = add(out, mul(subst(u, x, y), ("int", k)))
            return out
        if t and t[0] == "*" and len(t) == 2:
            out = ("int", 1)
            for u in t[1]:
                out = mul(out, subst(u, x, y))
            return out
        return tuple(subst(s, x, y) for s in t)
    return t


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for s in t:
            if isinstance(s, tuple):
                yield from subterms(s)


def decide(facts, at):
    """truth of an atom under the facts, or None"""
    if at in facts:
        return facts[at]
    k, d = at[0], at[1]
    if k in ("eq0", "ge0"):
        c, ts = lin(d)
        if not ts:
            return c == 0 if k == "eq0" else c >= 0
        key = ts
        neg = {t: -n for t, n in ts.items()}
        for f, v in facts.items():
            if f[0] not in ("eq0", "ge0"):
                continue
            c2, t2 = lin(f[1])
            if t2.keys() != ts.keys():
                continue
            for kk, sg in ((key, 1), (neg, -1)):
                if t2 != kk:
                    continue
                # f:  sg*X + c2 (==|>=) 0   with X the terms of d;  d = X + c
                if f[0] == "eq0" and v:
                    x = -c2 * sg
                    return x + c == 0 if k == "eq0" else x + c >= 0
                if f[0] == "ge0":
                    if sg == 1:
                        lo, hi = (-c2, None) if v else (None, -c2 - 1)
                    else:
                        lo, hi = (None, c2) if v else (c2 + 1, None)
                    if lo is not None and k == "ge0" and lo + c >= 0:
                        return True
                    if hi is not None and k == "ge0" and hi + c < 0:
                        return False
                    if k == "eq0" and ((lo is not None and lo + c > 0) or (hi is not None and hi + c < 0)):
                        return False
    return None


def eq_atom(a, b):
    d = add(a, b, -1)
    c, ts = lin(d)
    if ts and sorted(ts.items(), key=repr)[0][1] < 0:
        d = mklin(-c, {t: -k for t, k in ts.items()})
    return ("eq0", d)


def ge_atom(d):
    """(atom, polarity) for d >= 0"""
    c, ts = lin(d)
    if ts and sorted(ts.items(), key=repr)[0][1] < 0:
        return ("ge0", mklin(-c - 1, {t: -k for t, k in ts.items()})), False
    return ("ge0", d), True


class St:
    __slots__ = ("env", "mem", "facts", "ev", "epoch")

    def __init__(self, env=None, mem=None, facts=None, ev=(), epoch="start"):
        self.env, self.mem, self.facts, self.ev, self.epoch = env or {}, mem or {}, facts or {}, ev, epoch

    def copy(self):
        return St(dict(self.env), dict(self.mem), dict(self.facts), self.ev, self.epoch)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), self.ev, self.epoch)


class Path:
    __slots__ = ("facts", "ev", "end", "val", "env", "mem", "again", "epoch")

    def __init__(self, st, end, val=None, again=None):
        self.facts, self.ev, self.end, self.val, self.env, self.mem, self.again, self.epoch = st.facts, st.ev, end, val, st.env, st.mem, again, st.epoch

    def __repr__(self):
        return "<%s %s ev=%s val=%s again=%s>" % (self.end, self.facts, self.ev, self.val, self.again)


class Summ:
    CAP = 3000

    def __init__(self, P, opaque=(), nops=(), pure=(), gates=None, distinct=(), globals_=None, files=None, hooks=None, depth=6, stable=(), readers=("push_buf", "find_hash", "insert_hash", "delete_hash", "free_rec"), news=("new_rec",)):
        self.P = P
        self.opaque, self.nops, self.pure = set(opaque), set(nops), set(pure)
        self.gates = gates or {}
        self.distinct = set(distinct)
        self.globals = globals_ or {}
        self.files = files
        self.hooks = hooks or {}
        self.depth = depth
        self.stable = set(stable)
        self.readers = set(readers)
        self.news = set(news)
        self.stack = []
        self.nloop = 0
        self.npaths = 0
        self.loops = {}
        self.widen = None
        self.quiet = set()
        self.keep = None        # facts that keep paths apart

    # ---- loads and stores ----
    def gname(self, v):
        return v[3].split("#")[0].split("@")[0]

    def load(self, st, lv):
        if lv[0] == "loc":
            return st.env.get(lv[1], ("undef", lv[1]))
        if lv in st.mem:
            return st.mem[lv]
        if lv[0] == "g" and lv[1] in self.globals:
            return self.globals[lv[1]]
        if lv[0] == "fld" and lv[2] == "data":
            return ("elt", lv[1], ("int", 0))
        if lv[0] == "fld" and lv[2] in ("item_size",):
            return ("ld", lv, "start")
        if (lv[0] == "g" and lv[1] in self.stable) or (lv[0] == "fld" and lv[2] in self.stable):
            return ("ld", lv, "start")
        ep = st.epoch
        return ("ld", lv, ep)

    def store(self, st, lv, v):
        if lv[0] == "loc":
            st.env[lv[1]] = v
            return
        if lv[0] == "ind" and v[0] == "ld" and v[1][0] == "ind":
            # a record is copied: what is known of its fields
            for k in list(st.mem):
                if k[0] == "fld" and k[1] == v[1][1]:
                    self.store(st, ("fld", lv[1], k[2]), st.mem[k])
        st.mem[lv] = v
        st.ev = st.ev + (("store", lv, v),)

    def clobber(self, st, why):
        st.mem = {}
        st.epoch = why

    def lval(self, st, e):
        """list of (lvalue, state)"""
        e = strip(e)
        k = e[0]
        if k == "var":
            if e[4] in ("l", "p"):
                return [(("loc", e[3]), st)]
            return [(("g", self.gname(e)), st)]
        if k == "mem":
            if e[5]:
                return [(("fld", p, e[4]), s) for p, s in self.ev(st, e[3])]
            out = []
            for lv, s in self.lval(st, e[3]):
                p = lv[1] if lv[0] == "ind" else ("&", lv)
                out.append((("fld", p, e[4]), s))
            return out
        if k == "idx":
            return [(self.deref(add(a, b)), s2) for a, s in self.ev(st, e[3]) for b, s2 in self.ev(s, e[4])]
        if k == "un" and e[3] == "*":
            return [(self.deref(p), s) for p, s in self.ev(st, e[4])]
        if k == "cond":
            out = []
            for t, s in self.cond(st, e[3]):
                out += self.lval(s, e[4] if t else e[5])
            return out
        # an rvalue aggregate
        return [(("tmp", v), s) for v, s in self.ev(st, e)]

    def deref(self, p):
        if p[0] == "&":
            return p[1]
        return ("ind", p)

    # ---- expressions: list of (value, state) ----
    def ev(self, st, e):
        if e is None:
            return [(("void",), st)]
        k = e[0]
        if k == "int":
            return [(("int", e[3]), st)]
        if k == "str":
            return [(("str", e[3]), st)]
        if k == "fn":
            return [(("fn", e[3]), st)]
        if k == "cast":
            return self.ev(st, e[3])
        if k in ("var", "mem", "idx"):
            return [(self.load(s, lv) if lv[0] != "tmp" else lv[1], s) for lv, s in self.lval(st, e)]
        if k == "un":
            o = e[3]
            if o == "*":
                return [(self.load(s, lv), s) for lv, s in self.lval(st, e)]
            if o == "&":
                if strip(e[4])[0] == "fn":
                    return self.ev(st, e[4])
                return [((lv[1] if lv[0] == "ind" else ("&", lv)), s) for lv, s in self.lval(st, e[4])]
            if o in ("++", "--", "p++", "p--"):
                out = []
                for lv, s in self.lval(st, e[4]):
                    v = self.load(s, lv)
                    n = add(v, ("int", 1), 1 if "+" in o else -1)
                    s = s.copy()
                    self.store(s, lv, n)
                    out.append((v if o[0] == "p" else n, s))
                return out
            if o == "!":
                return [(("int", int(not t)), s) for t, s in self.cond(st, e[4])]
            if o == "-":
                return [(mul(v, ("int", -1)), s) for v, s in self.ev(st, e[4])]
            return [(("app", o, (v,)), s) for v, s in self.ev(st, e[4])]
        if k == "bin":
            o = e[3]
            if o == "=":
                out = []
                for v, s in self.ev(st, e[5]):
                    for lv, s2 in self.lval(s, e[4]):
                        s2 = s2.copy()
                        self.store(s2, lv, v)
                        out.append((v, s2))
                return out
            if o.endswith("=") and o not in ("==", "!=", "<=", ">="):
                out = []
                for v, s in self.ev(st, e[5]):
                    for lv, s2 in self.lval(s, e[4]):
                        n = self.arith(o[:-1], self.load(s2, lv), v)
                        s2 = s2.copy()
                        self.store(s2, lv, n)
                        out.append((n, s2))
                return out
            if o == ",":
                return [r for _, s in self.ev(st, e[4]) for r in self.ev(s, e[5])]
            if o in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return [(("int", int(t)), s) for t, s in self.cond(st, e)]
            return [(self.arith(o, a, b), s2) for a, s in self.ev(st, e[4]) for b, s2 in self.ev(s, e[5])]
        if k == "cond":
            r = self.bufptr(st, e)
            if r is not None:
                return r
            out = []
            for t, s in self.cond(st, e[3]):
                out += self.ev(s, e[4] if t else e[5])
            return out
        if k == "call":
            return self.call(st, e)
        if k == "stmtexpr":
            outs = self.run(e[3], [st]) if isinstance(e[3], list) else [(st, "n", None)]
            return [(("void",), s) for s, kd, v in outs if kd == "n"]
        out = [st]
        for x in subexprs(e):
            out = [s2 for s in out for _, s2 in self.ev(s, x)]
        return [(("opq", k, e[1]), s) for s in out]

    def bufptr(self, st, e):
        """(bp->buf_size >= i)? element : NULL  -- taken to be inside"""
        if strip(e[5])[0] == "int" and strip(e[5])[3] == 0 and any(x[0] == "mem" and x[4] == "buf_size" for x in walk(e[3])):
            return self.ev(st, e[4])
        return None

    def arith(self, o, a, b):
        if o == "+":
            return add(a, b)
        if o == "-":
            return add(a, b, -1)
        if o == "*":
            return mul(a, b)
        if a[0] == "int" and b[0] == "int" and b[1] >= 0:
            x, y = a[1], b[1]
            try:
                return ("int", {"/": lambda: int(x / y), "%": lambda: x - y * int(x / y), "<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y,
                                "|": lambda: x | y, "^": lambda: x ^ y}[o]())
            except (KeyError, ZeroDivisionError):
                pass
        if o == "<<" and b[0] == "int":
            return mul(a, ("int", 1 << b[1]))
        if o in ("&", "|", "^"):
            a, b = sorted((a, b), key=repr)
        return ("app", o, (a, b))

    # ---- conditions: list of (truth, state) ----
    def cond(self, st, e):
        e = strip(e)
        k = e[0]
        if k == "un" and e[3] == "!":
            return [(not t, s) for t, s in self.cond(st, e[4])]
        if k == "bin" and e[3] in ("&&", "||"):
            out = []
            for t, s in self.cond(st, e[4]):
                if t == (e[3] == "||"):
                    out.append((t, s))
                else:
                    out += self.cond(s, e[5])
            return out
        if k == "bin" and e[3] in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for a, s in self.ev(st, e[4]):
                for b, s2 in self.ev(s, e[5]):
                    out += self.compare(s2, e[3], a, b)
            return out
        out = []
        for v, s in self.ev(st, e):
            out += self.compare(s, "!=", v, ("int", 0))
        return out

    def compare(self, st, o, a, b):
        if o in ("==", "!="):
            r = self.known_eq(a, b)
            if r is not None:
                return [(r == (o == "=="), st)]
            at, pol = eq_atom(a, b), o == "=="
        else:
            d = {"<": lambda: add(a, b, -1), ">=": lambda: add(a, b, -1), ">": lambda: add(b, a, -1), "<=": lambda: add(b, a, -1)}[o]()
            at, pol = ge_atom(d)
            if o in ("<", ">"):
                pol = not pol
        return [(t == pol, s) for t, s in self.fork(st, at)]

    def known_eq(self, a, b):
        if a == b:
            return True
        if a[0] == "elt" and b[0] == "elt" and a[1] == b[1]:
            return None
        z = ("int", 0)
        for x, y in ((a, b), (b, a)):
            if y == z and x[0] in ("&", "elt", "str", "fn", "new"):
                return False
            if x in self.distinct and y in self.distinct:
                return False
            if x[0] == "new" and y[0] == "new":
                return False
        for x in (a, b):
            if x[0] in ("T", "F", "not", "and"):
                raise Unsupported("C comparison of symbolic values")
        return None

    def fork(self, st, at):
        r = decide(st.facts, at)
        if r is not None:
            return [(r, st)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.facts[at] = v
            out.append((v, s))
        return out

    # ---- calls ----
    def call(self, st, e):
        n = callee(e)
        if n is not None:
            n = n.split("@")[0]
        elif strip(e[3])[0] == "var":
            n = self.gname(strip(e[3]))
        elif strip(e[3])[0] == "mem":
            n = "->" + strip(e[3])[4]
        elif strip(e[3])[0] == "un" and strip(strip(e[3])[4])[0] == "var":
            n = self.gname(strip(strip(e[3])[4]))
        if n in self.nops:
            return [(("void",), st)]
        if n in self.hooks:
            return self.hooks[n](self, st, e)
        sts = [((), st)]
        for a in e[4]:
            sts = [(vs + (v,), s2) for vs, s in sts for v, s2 in self.ev(s, a)]
        out = []
        for vs, s in sts:
            out += self.apply(s, e, n, vs)
        return out

    def apply(self, s, e, n, vs):
        if n in self.gates:
            return self.gates[n](self, s, vs)
        if n in self.pure:
            return [(("app", n, vs), s)]
        full = callee(e)
        g = self.P.funcs.get(full) if full else None
        if g is None and full:
            g = self.P.funcs.get(full.split("@")[0])
        if g is not None and n not in self.opaque and (self.files is None or g.file in self.files or g.file.rsplit("/", 1)[-1] in self.files) and len(self.stack) < self.depth \
                and g.name not in self.stack and not g.variadic:
            return self.enter(s, g, vs)
        s = s.copy()
        refs = [a[1][1] for a in vs if a[0] == "&" and a[1][0] == "loc"]
        vs = tuple(("ref", s.env.get(a[1][1], ("undef", a[1][1]))) if a[0] == "&" and a[1][0] == "loc" else a for a in vs)
        if n in ("exit", "abort", "_exit"):
            return []
        if n in self.quiet:
            for x in refs:
                s.env[x] = ("phi", x)
            return [(("phi", n), s)]
        if n in self.news:
            v = ("new", n, len(s.ev), len(self.stack))
            s.ev = s.ev + (("call", n, vs, s.epoch),)
            return [(v, s)]
        if full in getattr(self.P, "noret", ()) or n in ("longjmp",):
            s.ev = s.ev + (("call", n, vs, s.epoch),)
            s.facts[("dead", n)] = True
            return [(("void",), s)]
        s.ev = s.ev + (("call", n, vs, s.epoch),)
        r = ("res", n, vs, len(s.ev))
        if n not in self.readers:
            self.clobber(s, n)
            for x in refs:
                s.env[x] = ("out", n, vs, len(s.ev), x.split("#")[0])
        return [(r, s)]

    def enter(self, s, g, vs):
        s = s.copy()
        saved = dict(s.env)
        for p, v in zip(g.params, vs):
            s.env[p[0]] = v
        self.stack.append(g.name)
        outs = self.run(g.body, [s])
        self.stack.pop()
        res = []
        for s2, kd, v in outs:
            if kd == "dead":
                res.append((("void",), s2))
                continue
            s2 = s2.copy()
            # locals of the callee die, but stores through addresses stay
            s2.env = {k: s2.env.get(k, saved[k]) for k in saved}
            res.append((v if v is not None else ("void",), s2))
        return self.squash(res)

    def squash(self, outs):
        seen = {}
        for v, s in outs:
            k = (v,) + s.key()
            if self.keep:
                k += (frozenset((a, x) for a, x in s.facts.items() if self.keep(a)),)
            if k in seen:
                o = seen[k]
                o.facts = {a: x for a, x in o.facts.items() if s.facts.get(a) == x}
            else:
                seen[k] = s.copy()
        return [(k[0], s) for k, s in seen.items()]

    # ---- statements: list of (state, kind, value) ----
    def run(self, b, sts):
        if b is None:
            return [(s, "n", None) for s in sts]
        if isinstance(b, list) and b and isinstance(b[0], list):
            done, cur = [], sts
            for x in b:
                nxt = []
                for s, kd, v in self.run(x, cur):
                    (nxt if kd == "n" else done).append(s if kd == "n" else (s, kd, v))
                cur = self.merge(nxt)
            return done + [(s, "n", None) for s in cur]
        out = []
        for s in sts:
            for r in self.stmt(b, s):
                if ("dead", "longjmp") in r[0].facts or any(k[0] == "dead" for k in r[0].facts):
                    r = (r[0], "dead", None)
                out.append(r)
        return out

    def merge(self, sts):
        if len(sts) < 2:
            return sts
        r = [s for _, s in self.squash([(None, s) for s in sts])]
        if self.widen and len(r) > self.widen:
            # constants that options choose become unknown
            for x in set.intersection(*[set(s.env) for s in r]):
                vs = {s.env[x] for s in r}
                if len(vs) > 1 and all(v[0] in ("int", "phi", "app") for v in vs):
                    for s in r:
                        s.env[x] = ("phi", x)
            r = [s for _, s in self.squash([(None, s) for s in r])]
        if len(r) > self.CAP:
            raise Unsupported("too many paths")
        return r

    def stmt(self, b, st):
        if not b:
            return [(st, "n", None)]
        k = b[0]
        if k == "block":
            return self.run(b[2], [st]) if b[2] else [(st, "n", None)]
        if k == "expr":
            return [(s, "n", None) for v, s in self.squash([(None, s) for _, s in self.ev(st, b[2])])]
        if k == "decl":
            cur = [st]
            for d in b[2]:
                nxt = []
                for s in cur:
                    if d[2] is not None:
                        if d[2][0] == "init":
                            nxt.append(s)
                            continue
                        for v, s2 in self.ev(s, d[2]):
                            s2 = s2.copy()
                            s2.env[d[0]] = v
                            nxt.append(s2)
                    else:
                        s = s.copy()
                        s.env[d[0]] = ("undef", d[0])
                        nxt.append(s)
                cur = nxt
            return [(s, "n", None) for s in self.merge(cur)]
        if k == "if":
            out = []
            for t, s in self.cond(st, b[2]):
                out += self.run(b[3] if t else b[4], [s])
            norm = self.merge([s for s, kd, v in out if kd == "n"])
            return [(s, "n", None) for s in norm] + [o for o in out if o[1] != "n"]
        if k == "ret":
            if b[2] is None:
                return [(st, "ret", None)]
            return [(s, "ret", v) for v, s in self.ev(st, b[2])]
        if k == "break":
            return [(st, "break", None)]
        if k == "cont":
            return [(st, "cont", None)]
        if k in ("while", "do", "for"):
            return self.loop(b, st)
        if k == "switch":
            return self.switch(b, st)
        if k in ("case", "default", "label"):
            return self.run(b[-1], [st])
        if k == "goto":
            raise Unsupported("goto")
        if k in ("null", "empty"):
            return [(st, "n", None)]
        raise Unsupported("statement " + k)

    def switch(self, b, st):
        body = b[3]
        if body and body[0] == "block":
            body = body[2]
        else:
            body = [body]
        flat = []               # (labels, stmt)

        def put(s):
            labs = []
            while s and s[0] in ("case", "default"):
                labs.append(s)
                s = s[-1]
            flat.append((labs, s))
        for s in body or []:
            put(s)
        out = []
        for v, s0 in self.ev(st, b[2]):
            rest = [s0]
            entries = []
            dflt = None
            for i, (labs, s) in enumerate(flat):
                for l in labs:
                    if l[0] == "default":
                        dflt = i
                        continue
                    lo = self.ev(s0, l[2])[0][0]
                    hi = lo
                    nxt = []
                    for r in rest:
                        for t, s2 in self.compare(r, "==", v, lo):
                            if t:
                                entries.append((i, s2))
                            else:
                                nxt.append(s2)
                    rest = nxt
            for r in rest:
                if dflt is not None:
                    entries.append((dflt, r))
                else:
                    out.append((r, "n", None))
            for i, s in entries:
                cur = [s]
                for _, x in flat[i:]:
                    nxt = []
                    for s2, kd, v2 in (self.run(x, cur) if x else [(y, "n", None) for y in cur]):
                        if kd == "n":
                            nxt.append(s2)
                        elif kd == "break":
                            out.append((s2, "n", None))
                        else:
                            out.append((s2, kd, v2))
                    cur = self.merge(nxt)
                    if not cur:
                        break
                out += [(s2, "n", None) for s2 in cur]
        return out

    # ---- loops ----
    def changed(self, b):
        """locals and globals assigned, and fields stored, in a loop"""
        loc, glob, decl = set(), set(), set()

        def exprs():
            for i, x in enumerate(b[2:]):
                if isinstance(x, list) and x and isinstance(x[0], list):
                    for y in x:
                        yield from both(y)
                elif isinstance(x, list) and x:
                    yield from both(x)

        def both(x):
            if x[0] in ("block", "expr", "decl", "if", "while", "do", "for", "switch", "case", "default", "label", "goto", "ret", "break", "cont", "null", "empty"):
                for s in stmts(x):
                    if s[0] == "decl" and not (b[0] == "for" and x is b[2]):
                        for d in s[2]:
                            decl.add(d[0])
                    for e in stmt_own_exprs(s):
                        if e is not None:
                            yield from walk(e)
            else:
                yield from walk(x)
        for e in exprs():
            t = None
            if e[0] == "bin" and e[3].endswith("=") and e[3] not in ("==", "!=", "<=", ">="):
                t = strip(e[4])
            elif e[0] == "un" and e[3] in ("++", "--", "p++", "p--"):
                t = strip(e[4])
            elif e[0] == "un" and e[3] == "&":
                t = strip(e[4])
            if t is not None and t[0] == "var":
                if t[4] in ("l", "p"):
                    loc.add(t[3])
                else:
                    glob.add(self.gname(t))
        return loc - decl, glob

    # declarations of a for loop's own counter are not local to an iteration
    def loop(self, b, st):
        k = b[0]
        init, cnd, step, body = None, None, None, None
        if k == "for":
            init, cnd, step, body = b[2], b[3], b[4], b[5]
        else:
            cnd, body = b[2], b[3]
            if k == "do":
                cnd, body = b[3], b[2]
                if not isinstance(body, list) or (body and body[0] in ("bin", "un", "var", "call", "int", "cast", "mem", "cond")):
                    cnd, body = body, cnd
        starts = [st]
        if init:
            starts = []
            if init[0] in ("decl", "expr", "block"):
                starts = [s for s, kd, v in self.run(init, [st])]
            else:
                starts = [s for _, s in self.ev(st, init)]
        out = []
        loc, glob = self.changed(b)
        for s in starts:
            out += self.loop1(b, k, cnd, step, body, s, loc, glob)
        return out

    def loop1(self, b, k, cnd, step, body, st, loc, glob):
        self.nloop += 1
        L = (b[1], self.nloop)
        if k == "while" and cnd is not None and strip(cnd)[0] == "int" and strip(cnd)[3] == 0:
            return [(st, "n", None)]
        if k == "do" and cnd is not None and strip(cnd)[0] == "int" and strip(cnd)[3] == 0:
            return [(s, "n" if kd in ("break", "cont") else kd, v) for s, kd, v in self.run(body, [st])]
        vs = sorted(x for x in loc if x in st.env)
        closed = {}
        for rnd in (0, 1):
            s0 = st.copy()
            s0.ev = ()
            self.clobber(s0, ("iter", L))
            for x in vs:
                s0.env[x] = closed.get(x, ("it", L, x))
            cur = [s0]
            leave = []
            if cnd is not None and k != "do":
                cur = []
                for t, s in self.cond(s0, cnd):
                    (cur if t else leave).append(s)
            outs = self.run(body, cur) if body is not None else [(s, "n", None) for s in cur]
            ends, others = [], []
            for s, kd, v in outs:
                if kd in ("n", "cont"):
                    if step is not None:
                        for _, s2 in self.ev(s, step):
                            ends.append(s2)
                    else:
                        ends.append(s)
                else:
                    others.append((s, kd, v))
            if rnd:
                break
            for x in vs:
                it = ("it", L, x)
                news = {s.env.get(x) for s in ends}
                if not ends:
                    continue
                if len(news) == 1:
                    n, = news
                    if n == it:
                        closed[x] = st.env[x]
                        continue
                    d = add(n, it, -1) if n[0] != "elt" else None
                    if d is not None and d[0] == "int" and abs(d[1]) >= 1:
                        closed[x] = add(st.env[x], mul(("k", L), d))
                        continue
                    if n[0] == "ld" and n[1][0] == "fld" and n[1][1] == it:
                        closed[x] = ("node", L, st.env[x], n[1][2])
                        continue
            if not closed:
                break
        paths = []
        for s in ends:
            again = []
            if cnd is not None:
                again = sorted({t for t, _ in self.cond(s, cnd)})
            else:
                again = [True]
            paths.append(Path(s, "end", None, again))
        for s, kd, v in others:
            paths.append(Path(s, kd, v))
        self.npaths += len(paths)
        rec = {"id": L, "paths": paths, "vars": {x: (st.env[x], closed.get(x)) for x in vs}, "leave": leave, "before": st, "kind": k, "fn": self.stack[-1] if self.stack else None}
        key = L
        self.loops[key] = rec
        res = []
        after = st.copy()
        after.ev = after.ev + (("loop", key),)
        for x in vs:
            if closed.get(x) != st.env[x]:
                after.env[x] = ("end", L, x)
        wr = set()
        clob = None
        for p in paths:
            for e in p.ev:
                if e[0] == "store":
                    wr.add(e[1])
                elif e[0] == "call":
                    clob = e[1]
                elif e[0] == "loop":
                    clob = clob or ("loop", L)
        if wr or clob:
            self.clobber(after, ("loop", L))
        for x in glob:
            after.mem.pop(("g", x), None)
        # leaving through the condition: what it says of the end
        forever = cnd is None or (strip(cnd)[0] == "int" and strip(cnd)[3] != 0)
        if forever and not any(p.end == "break" for p in paths):
            pass
        elif cnd is not None and not any(p.end == "break" for p in paths):
            ls = []
            try:
                ls = [s for t, s in self.cond(after, cnd) if not t]
            except Unsupported:
                pass
            fin = []
            for s in ls:
                s = s.copy()
                if s.ev != after.ev:
                    s.ev = after.ev
                fin.append(s)
            fin = self.merge(fin) if fin else []
            if 1 <= len(fin) <= 4:
                res += [(x, "n", None) for x in fin]
            else:
                res.append((after, "n", None))
        else:
            brk = [s for s, kd, v in others if kd == "break"]
            ls = []
            if not forever:
                try:
                    ls = [s for t, s in self.cond(after, cnd) if not t]
                except Unsupported:
                    ls = [after]
            # left by break: in the state of the iteration that breaks
            for s in brk:
                s2 = after.copy()
                for x in vs:
                    s2.env[x] = s.env.get(x, after.env[x])
                for a, v in s.facts.items():
                    s2.facts[a] = v
                s2.mem = dict(s.mem) if not clob else {}
                ls.append(s2)
            for s in ls:
                s.ev = after.ev
            fin = self.merge(ls) if ls else []
            if 1 <= len(fin) <= 8:
                res += [(x, "n", None) for x in fin]
            else:
                res.append((after, "n", None))
        for s, kd, v in others:
            if kd == "break":
                continue
            s2 = s.copy()
            s2.ev = st.ev + (("some", key),) + s.ev
            f = dict(st.facts)
            f.update(s.facts)
            s2.facts = f
            res.append((s2, kd, v))
        return res

    def paths(self, f, args=None, st=None):
        st = st or St()
        for i, p in enumerate(f.params):
            st.env[p[0]] = args[i] if args and i < len(args) and args[i] is not None else ("arg", i)
        self.stack.append(f.name)
        outs = self.run(f.body, [st])
        self.stack.pop()
        ps = [Path(s, "ret" if kd == "n" else kd, v) for s, kd, v in outs]
        self.npaths += len(ps)
        return ps


# ---- walking summaries ----
def events(S, paths, deep=True):
    """every effect with the chain of loops and paths it is under"""
    out = []

    def go(ps, chain):
        for p in ps:
            for i, e in enumerate(p.ev):
                out.append((e, p, i, chain))
                if e[0] in ("loop", "some") and deep:
                    go(S.loops[e[1]]["paths"], chain + ((p, i, e[1]),))
    go(paths, ())
    return out


def pp(t):
    """a term, for people"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "int":
        return str(t[1])
    if k in ("T", "F"):
        return k
    if k == "str":
        return repr(t[1])
    if k == "lin":
        return "(" + " + ".join(([str(t[1])] if t[1] else []) + [("%d*" % n if n != 1 else "") + pp(u) for u, n in t[2]]) + ")"
    if k == "*":
        return "*".join(pp(u) for u in t[1])
    if k == "ld":
        return pp(t[1]) + ("" if t[2] == "start" else "@" + (t[2] if isinstance(t[2], str) else "%s%d.%d" % (t[2][0][0], t[2][1][0], t[2][1][1])))
    if k == "g":
        return t[1]
    if k == "loc":
        return t[1]
    if k == "fld":
        return pp(t[1]) + "->" + t[2]
    if k == "ind":
        return "[" + pp(t[1]) + "]"
    if k == "&":
        return "&" + pp(t[1])
    if k == "elt":
        return pp(t[1]) + "{" + pp(t[2]) + "}"
    if k == "not":
        return "~" + pp(t[1])
    if k == "and":
        return "(" + pp(t[1]) + " & " + pp(t[2]) + ")"
    if k in ("k",):
        return "k%d.%d" % t[1]
    if k in ("it", "end"):
        return "%s(%s:%d.%d)" % (k, t[2].split("#")[0], t[1][0], t[1][1])
    if k == "node":
        return "node(%s %s* :%d.%d)" % (pp(t[2]), t[3], t[1][0], t[1][1])
    if k == "eq0":
        return pp(t[1]) + "==0"
    if k == "ge0":
        return pp(t[1]) + ">=0"
    if k in ("app", "res", "call"):
        return "%s%s(%s)" % ({"app": "", "res": "res:", "call": "CALL "}[k], t[1], ", ".join(pp(a) for a in t[2])) + ("@" + str(t[3]) if k == "call" and t[3] != "start" else "")
    if k == "out":
        return "out:%s.%s" % (t[1], t[4])
    if k == "store":
        return pp(t[1]) + " := " + pp(t[2])
    return str(k) + "(" + ", ".join(pp(a) if isinstance(a, tuple) else str(a) for a in t[1:]) + ")"
