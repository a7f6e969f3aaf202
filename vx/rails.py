"""Parametric analysis of the simulator's word operations.

A function over arrays of dual-rail bits is summarised without fixing the
width of the words: integer values are polynomials over the operation's
(unknown) sizes, a loop is reduced to one generic iteration -- its counters in
closed form, the rails it carries from one iteration to the next as the state
of a finite transducer, the cells it writes as a function of the iteration
number -- and the summaries are layered on the arrays.  Rails are Boolean
functions of the cells read and of the carried state; they are compared by
truth tables, so that how a formula is written does not matter."""
import itertools
import math
from .facts import *

ZERO, ONE = ("const", 0), ("const", 1)


class Unsupported(Exception):
    pass


# ---- polynomials over opaque symbols -------------------------------------
class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self._h = None

    def key(self):
        return tuple(sorted(((tuple(sorted(map(repr, m))), c) for m, c in self.t.items())))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
        return Poly(r)

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def syms(self):
        return {s for m in self.t for s in m}

    def __repr__(self):
        if not self.t:
            return "0"
        return "+".join(("%d" % c if not m else ("%s" % "*".join(map(sname, m)) if c == 1 else "%d*%s" % (c, "*".join(map(sname, m)))))
                        for m, c in sorted(self.t.items(), key=repr)).replace("+-", "-")

    def subst(self, s, p):
        r = Poly({})
        for m, c in self.t.items():
            q = Poly({(): c})
            for x in m:
                q = q * (p if x == s else Poly({(subst_sym(x, s, p),): 1}))
            r = r + q
        return r


def sname(s):
    if isinstance(s, tuple):
        return "%s(%s)" % (s[0], ",".join(sname(x) if isinstance(x, (tuple, str)) else repr(x) for x in s[1:]))
    return str(s)


def subst_sym(x, s, p):
    """substitution inside an opaque symbol"""
    if isinstance(x, tuple):
        return tuple(p if (y == s) else y.subst(s, p) if isinstance(y, Poly) else subst_sym(y, s, p) if isinstance(y, tuple) else y for y in x)
    return x


def P(c):
    return Poly({(): c})


def S(s):
    return Poly({(s,): 1})


# ---- Boolean trees --------------------------------------------------------
def b_not(a):
    if a[0] == "const":
        return ("const", 1 - a[1])
    if a[0] == "not":
        return a[1]
    return ("not", a)


def b_and(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    return ("and", a, b)


def b_or(a, b):
    if a == ONE or b == ONE:
        return ONE
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    return ("or", a, b)


def b_ite(c, a, b):
    if c == ONE or a == b:
        return a
    if c == ZERO:
        return b
    return ("ite", c, a, b)


def atoms(e, out=None):
    out = {} if out is None else out
    st = [e]
    while st:
        x = st.pop()
        if x[0] == "atom":
            out[x[1]] = 1
        elif x[0] != "const":
            st.extend(x[1:])
    return out


def ev(e, a):
    k = e[0]
    if k == "const":
        return e[1]
    if k == "atom":
        return a[e[1]]
    if k == "not":
        return 1 - ev(e[1], a)
    if k == "and":
        return ev(e[1], a) and ev(e[2], a)
    if k == "or":
        return ev(e[1], a) or ev(e[2], a)
    return ev(e[2], a) if ev(e[1], a) else ev(e[3], a)


def map_atoms(e, f):
    k = e[0]
    if k == "const":
        return e
    if k == "atom":
        return f(e[1])
    if k == "not":
        return b_not(map_atoms(e[1], f))
    if k == "and":
        return b_and(map_atoms(e[1], f), map_atoms(e[2], f))
    if k == "or":
        return b_or(map_atoms(e[1], f), map_atoms(e[2], f))
    return b_ite(map_atoms(e[1], f), map_atoms(e[2], f), map_atoms(e[3], f))


def subst_atom(a, s, p):
    return ("atom", tuple(y.subst(s, p) if isinstance(y, Poly) else y for y in a))


def bsubst(e, s, p, cons=()):
    def f(a):
        x = subst_atom(a, s, p)
        if x[1][0] == "ge":
            return ge(x[1][1], cons)
        if x[1][0] == "eq0":
            return eq0(x[1][1], cons)
        return x
    return map_atoms(e, f)


# ---- linear facts ---------------------------------------------------------
def prove_nonneg(p, cons, depth=4):
    """p >= 0 follows from the constraints (each a Poly known to be >= 0)"""
    if all(c > 0 for m, c in p.t.items()) and all(m == () or all(nonneg_sym(s) for s in m) for m in p.t):
        return True
    if depth == 0:
        return False
    for c in cons:
        # only subtract constraints that remove a negative monomial
        r = [co // c.t[k] for k, co in p.t.items() if co < 0 and c.t.get(k, 0) < 0]
        for m in {max(1, q) for q in r}:
            if prove_nonneg(p - c * P(m), cons, depth - 1):
                return True
    return False


def nonneg_sym(s):
    if isinstance(s, tuple):
        return s[0] in ("k", "pow2", "sat2", "len", "fld", "size", "nth", "nnodes", "node")
    return isinstance(s, str) and s.startswith("@")


def decide(a, cons):
    """simplify a comparison atom"""
    kind, p = a[1][0], a[1][1]
    if kind == "ge":
        c = p.const()
        if c is not None:
            return ONE if c >= 0 else ZERO
        if prove_nonneg(p, cons):
            return ONE
        if prove_nonneg(-p - P(1), cons):
            return ZERO
        return a
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if prove_nonneg(p - P(1), cons) or prove_nonneg(-p - P(1), cons):
        return ZERO
    return a


def lead(p):
    ms = [m for m in p.t if m]
    return p.t[min(ms, key=repr)] if ms else 1


def tight(p):
    """p >= 0 over the integers, without the common factor of its coefficients"""
    g = 0
    for m, c in p.t.items():
        if m:
            g = math.gcd(g, c)
    if g <= 1:
        return p
    return Poly({m: (c // g) for m, c in p.t.items()})


def ge(p, cons):
    p = tight(p)
    # one atom for p >= 0 and for its negation
    if lead(p) < 0:
        return b_not(decide(("atom", ("ge", -p - P(1))), cons))
    return decide(("atom", ("ge", p)), cons)


def eq0(p, cons):
    q = tight(p)
    g = next((c // q.t[m] for m, c in p.t.items() if m), 1)
    if q * P(g) == p:
        p = q
    elif g > 1:
        return ZERO
    return decide(("atom", ("eq0", p if lead(p) > 0 else -p)), cons)


# ---- state ----------------------------------------------------------------
class Layer:
    """cells idx(k), 0 <= k < N, hold expr(k); k None: one cell"""
    __slots__ = ("k", "N", "idx", "expr", "loop")

    def __init__(self, k, N, idx, expr, loop=None):
        self.k, self.N, self.idx, self.expr, self.loop = k, N, idx, expr, loop


class Whole:
    """the whole array is the word a loop carries / leaves"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag


class Loop:
    pass


class State:
    __slots__ = ("env", "mem", "cons", "guard", "ret", "reads", "calls")

    def __init__(self):
        self.env, self.mem, self.cons, self.guard, self.ret, self.reads, self.calls = {}, {}, (), ONE, None, [], ()

    def copy(self):
        s = State()
        s.env, s.mem, s.cons, s.guard, s.ret, s.reads, s.calls = dict(self.env), dict(self.mem), self.cons, self.guard, self.ret, self.reads, self.calls
        return s


SIZES = {"gbv": 1}


class Rails:
    def __init__(self, prog, arrays, hooks=None):
        """arrays: global pointer variable short name -> array name"""
        self.P = prog
        self.arrays = arrays
        self.loops = []
        self.hooks = hooks or {}
        self.nstmt = 0
        self.trial = 0
        self.consts = {"c_ONE": ONE, "c_ZERO": ZERO}
        self.uid = 0
        self.nacc, self.outside = 0, []

    def fresh(self, n):
        self.uid += 1
        return "%s.%d" % (n, self.uid)

    # -- memory --
    def read(self, st, arr, e, upto=None):
        layers = st.mem.get(arr, ())
        n = len(layers) if upto is None else upto
        for j in range(n - 1, -1, -1):
            L = layers[j]
            if isinstance(L, Whole):
                st.reads.append((arr, e, st.cons))
                return ("atom", ("cell", L.tag, e))
            if L.k is None:
                d = e - L.idx
                g = eq0(d, st.cons)
                if g == ONE:
                    return L.expr
                if g == ZERO or odd(d):
                    continue
                t = st.copy()
                if prove_nonneg(d, st.cons):
                    t.cons = t.cons + (tight(d - P(1)),)
                elif prove_nonneg(-d, st.cons):
                    t.cons = t.cons + (tight(-d - P(1)),)
                return b_ite(g, L.expr, self.read(t, arr, e, j))
            a, b = linear(L.idx, L.k)
            if a is None:
                raise Unsupported("index of a written cell")
            d = e - b
            if odd(d) and a % 2 == 0:
                continue
            q = div(d, a)
            if q is None:
                raise Unsupported("cells of different stride")
            g = b_and(ge(q, st.cons), ge(L.N - P(1) - q, st.cons))
            if g == ZERO:
                continue
            v = bsubst(L.expr, L.k, q, st.cons)
            st.reads.append((arr, e, st.cons))
            if g == ONE:
                return v
            return b_ite(g, v, self.read(st, arr, e, j))
        st.reads.append((arr, e, st.cons))
        return ("atom", ("cell", arr, e))

    def write(self, st, arr, e, v):
        if v[0] != "rail":
            raise Unsupported("store of a non-rail")
        st.mem[arr] = st.mem.get(arr, ()) + (Layer(None, None, e, v[1]),)

    # -- expressions --
    def lval(self, st, e):
        e = strip(e)
        if e[0] == "var":
            return ("v", e[3])
        if e[0] == "un" and e[3] == "*":
            p = self.ev(st, e[4])
            if p[0] == "ptr":
                return ("c", p[1], p[2])
            if p[0] == "addr":
                return ("v", p[1])
            if p[0] == "sym":
                return ("f", ("deref", p[1]))
        if e[0] == "idx":
            p, i = self.ev(st, e[3]), self.ev(st, e[4])
            if p[0] == "ptr" and i[0] == "int":
                return ("c", p[1], p[2] + i[1])
        if e[0] == "mem":
            b = strip(e[3])
            if not e[5]:
                lv = self.lval(st, b)
                if lv[0] == "f":
                    return ("f", ("fld", lv[1], e[4]))
                if lv[0] == "v":
                    return ("v", lv[1] + "." + e[4])
            else:
                v = self.ev(st, b)
                if v[0] == "addr":
                    return ("v", v[1] + "." + e[4])
                if v[0] == "sym":
                    return ("f", ("fld", v[1], e[4]))
        raise Unsupported("lvalue " + show(e))

    def inside(self, st, arr, e):
        """the access is not outside the buffer: neither always, nor in the first or last iteration of a loop"""
        sz = st.env.get(("size", arr))
        if sz is None or self.trial or any(prove_nonneg(-c - P(1), st.cons) for c in st.cons):
            return
        self.nacc += 1
        sz = sz[1]
        tries = [(e, st.cons)]
        ranges = {}
        for c in st.cons:
            ks = [x for x in c.syms() if isinstance(x, tuple) and x[0] == "k"]
            if len(ks) == 1:
                a, b = linear(c, ks[0])
                if a == 1 and b == P(0):
                    ranges.setdefault(ks[0], []).append(P(0))
                    continue
                if a == -1:
                    ranges.setdefault(ks[0], []).append(b)
                    continue
            for x in ks:
                ranges.setdefault(x, []).append(None)
        for k, ends in ranges.items():
            if len(ends) == 2 and None not in ends:
                for x in ends:
                    tries += [(t.subst(k, x), tuple(c.subst(k, x) for c in cs)) for t, cs in list(tries)]
        for t, cs in tries:
            if any(c.const() is not None and c.const() < 0 for c in cs):
                continue
            cs = tuple(c for c in cs if c.const() is None)
            if prove_nonneg(t - sz, cs) or prove_nonneg(-t - P(1), cs):
                self.outside.append((arr, t, sz))
                return

    def load(self, st, lv, ty):
        if lv[0] == "c":
            self.inside(st, lv[1], lv[2])
            return ("rail", self.read(st, lv[1], lv[2]))
        if lv[0] == "v":
            n = lv[1]
            if n in st.env:
                return st.env[n]
            sh = re.sub(r"[#@].*", "", n)
            if sh in self.arrays:
                return ("ptr", self.arrays[sh], P(0))
            fs = {q[len(n) + 1:]: v for q, v in st.env.items() if isinstance(q, str) and q.startswith(n + ".")}
            if fs:
                return ("rec", tuple(sorted(fs.items())))
            if sh in self.consts:
                return ("rail", self.consts[sh])
            return self.initial(st, ("glob", n), ty)
        if lv in st.env:
            return st.env[lv]
        return self.initial(st, lv[1], ty)

    def initial(self, st, term, ty):
        t = ty or ""
        if t.startswith("gbv") and "*" not in t:
            return ("rail", ("atom", ("init", term)))
        if t in INTS:
            return ("int", S(term))
        return ("sym", term)

    def store(self, st, lv, v):
        if lv[0] == "c":
            self.inside(st, lv[1], lv[2])
            self.write(st, lv[1], lv[2], v)
        elif lv[0] == "v":
            if v[0] == "rec":
                for q, x in v[1]:
                    st.env[lv[1] + "." + q] = x
                return
            sh = re.sub(r"[#@].*", "", lv[1])
            if sh in self.arrays and v[0] == "sym":
                v = ("ptr", self.arrays[sh], P(0))
            st.env[lv[1]] = v
        else:
            st.env[lv] = v

    def tyof(self, e):
        return self.f.types[e[2]] if isinstance(e[2], int) and e[2] < len(self.f.types) else ""

    def cty(self, e):
        return self.f.ctypes[e[2]] if isinstance(e[2], int) and e[2] < len(self.f.ctypes) else ""

    def ev(self, st, e):
        self.nstmt += 1
        k = e[0]
        if k == "cast":
            return self.ev(st, e[3])
        if k == "int":
            return ("int", P(e[3]))
        if k == "var" or k == "mem" or k == "idx":
            return self.load(st, self.lval(st, e), self.norm(e))
        if k == "str":
            return ("sym", ("str", e[3]))
        if k == "fn":
            return ("sym", ("fn", e[3]))
        if k == "un":
            o = e[3]
            if o == "*":
                return self.load(st, self.lval(st, e), self.norm(e))
            if o == "&":
                x = strip(e[4])
                lv = self.lval(st, x)
                if lv[0] == "c":
                    return ("ptr", lv[1], lv[2])
                if lv[0] == "v":
                    return ("addr", lv[1])
                return ("sym", ("addr", lv[1]))
            if o in ("++", "--", "p++", "p--"):
                lv = self.lval(st, e[4])
                v = self.load(st, lv, self.norm(e[4]))
                d = P(1 if "+" in o else -1)
                if v[0] == "int":
                    n = ("int", v[1] + d)
                elif v[0] == "ptr":
                    n = ("ptr", v[1], v[2] + d)
                else:
                    raise Unsupported("++ on " + v[0])
                self.store(st, lv, n)
                return v if o[0] == "p" else n
            if o == "-":
                v = self.ev(st, e[4])
                if v[0] == "int":
                    return ("int", -v[1])
            if o == "!":
                return ("bool", b_not(self.cond(st, e[4])))
            if o == "+":
                return self.ev(st, e[4])
            raise Unsupported("operator " + o)
        if k == "bin":
            o = e[3]
            if o == "=":
                v = self.ev(st, e[5])
                lv = self.lval(st, e[4])
                self.store(st, lv, v)
                return v
            if o == ",":
                self.ev(st, e[4])
                return self.ev(st, e[5])
            if o in ("+=", "-=", "*=", "/=", "<<=", ">>=", "%="):
                lv = self.lval(st, e[4])
                a = self.load(st, lv, self.norm(e[4]))
                v = self.arith(o[:-1], a, self.ev(st, e[5]))
                self.store(st, lv, v)
                return v
            if o in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return ("bool", self.cond(st, e))
            return self.arith(o, self.ev(st, e[4]), self.ev(st, e[5]))
        if k == "cond":
            c = self.cond(st, e[3])
            if c == ONE:
                return self.ev(st, e[4])
            if c == ZERO:
                return self.ev(st, e[5])
            a, b = self.ev(st, e[4]), self.ev(st, e[5])
            return self.merge(c, a, b)
        if k == "call":
            return self.call(st, e)
        if k == "stmtexpr":
            raise Unsupported("statement expression")
        if k == "szof":
            return ("int", S(("sizeof",)))
        raise Unsupported(k)

    def norm(self, e):
        t = self.tyof(e)
        return t if t in INTS or t.startswith("gbv") else self.cty(e)

    def arith(self, o, a, b):
        if a[0] == "bool":
            a = self.b2i(a)
        if b[0] == "bool":
            b = self.b2i(b)
        if a[0] == "ptr" and b[0] == "int":
            if o == "+":
                return ("ptr", a[1], a[2] + b[1])
            if o == "-":
                return ("ptr", a[1], a[2] - b[1])
        if b[0] == "ptr" and a[0] == "int" and o == "+":
            return ("ptr", b[1], b[2] + a[1])
        if a[0] == "int" and b[0] == "int":
            p, q = a[1], b[1]
            if o == "+":
                return ("int", p + q)
            if o == "-":
                return ("int", p - q)
            if o == "*":
                return ("int", p * q)
            if o == "<<" and q.const() is not None:
                return ("int", p * P(1 << q.const()))
            if o == ">>" and q.const() is not None:
                o, q = "/", P(1 << q.const())
            if o == "&" and q.const() == 1:
                o, q = "%", P(2)
            c, d = p.const(), q.const()
            if c is not None and d is not None and c >= 0 and d > 0:
                return ("int", P(c // d if o == "/" else c % d if o == "%" else 0)) if o in "/%" else self.opq(o, p, q)
            return self.opq(o, p, q)
        if "sym" in (a[0], b[0]) and o in "+-*":
            return ("sym", ("op" + o, a[1], b[1]))
        raise Unsupported("%s on %s, %s" % (o, a[0], b[0]))

    def opq(self, o, p, q):
        if o == "/" and q.const() == 2 and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "shr":
                return ("int", S(("shr", m[0][1], m[0][2] + P(1))))
        return ("int", S(("op" + o, p, q)))

    def b2i(self, a):
        if a[1] == ONE:
            return ("int", P(1))
        if a[1] == ZERO:
            return ("int", P(0))
        return ("int", S(("b2i", a[1])))

    def cond(self, st, e):
        e = strip(e)
        if e[0] == "un" and e[3] == "!":
            return b_not(self.cond(st, e[4]))
        if e[0] == "bin" and e[3] == "&&":
            return b_and(self.cond(st, e[4]), self.cond(st, e[5]))
        if e[0] == "bin" and e[3] == "||":
            return b_or(self.cond(st, e[4]), self.cond(st, e[5]))
        if e[0] == "bin" and e[3] in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.ev(st, e[4]), self.ev(st, e[5])
            if a[0] == "bool" and b[0] == "int" and b[1].const() in (0, 1):
                r = a[1] if b[1].const() else b_not(a[1])
                if e[3] == "==":
                    return r
                if e[3] == "!=":
                    return b_not(r)
            if a[0] == "bool":
                a = self.b2i(a)
            if b[0] == "bool":
                b = self.b2i(b)
            if a[0] == "int" and b[0] == "int":
                d = a[1] - b[1]
                o = e[3]
                if o == "<":
                    return b_not(ge(d, st.cons))
                if o == ">=":
                    return ge(d, st.cons)
                if o == ">":
                    return b_not(ge(-d, st.cons))
                if o == "<=":
                    return ge(-d, st.cons)
                g = eq0(d, st.cons)
                return g if o == "==" else b_not(g)
            if e[3] in ("==", "!="):
                x, y = self.term(a), self.term(b)
                if x == y:
                    g = ONE
                else:
                    g = ("atom", ("same",) + tuple(sorted((x, y), key=repr)))
                return g if e[3] == "==" else b_not(g)
            raise Unsupported("comparison " + show(e))
        v = self.ev(st, e)
        if v[0] == "bool":
            return v[1]
        if v[0] == "int":
            return b_not(eq0(v[1], st.cons))
        return b_not(("atom", ("same",) + tuple(sorted((self.term(v), ("null",)), key=repr))))

    def term(self, v):
        if v[0] == "int":
            return ("null",) if v[1].const() == 0 else ("i", v[1])
        if v[0] == "sym":
            return v[1]
        return v

    def merge(self, c, a, b):
        if a == b:
            return a
        if a[0] == "rail" and b[0] == "rail":
            return ("rail", b_ite(c, a[1], b[1]))
        if a[0] == "bool" and b[0] == "bool":
            return ("bool", b_ite(c, a[1], b[1]))
        if a[0] == "int" and b[0] == "int":
            return ("int", S(("ite", c, a[1], b[1])))
        return ("sym", ("ite", c, a, b))

    def call(self, st, e):
        c = strip(e[3])
        if c[0] == "un" and c[3] == "*":
            c = strip(c[4])
        name = re.sub(r"[#@].*", "", c[3]) if c[0] in ("var", "fn") else None
        if name in ("c_AND", "c_OR"):
            a, b = self.rail(self.ev(st, e[4][0])), self.rail(self.ev(st, e[4][1]))
            return ("rail", b_and(a, b) if name == "c_AND" else b_or(a, b))
        if name == "c_NOT":
            return ("rail", b_not(self.rail(self.ev(st, e[4][0]))))
        if name is None and "*call" in self.hooks:
            return self.hooks["*call"](self, st, e)
        if name in self.hooks:
            return self.hooks[name](self, st, e)
        F = self.P.funcs.get(c[3]) if c[0] == "fn" else None
        if F is None or F.body is None:
            raise Unsupported("call of " + (name or "?"))
        args = [self.ev(st, a) for a in e[4]]
        return self.inline(st, F, args)

    def rail(self, v):
        if v[0] != "rail":
            raise Unsupported("not a rail: %s" % (v,))
        return v[1]

    def inline(self, st, F, args):
        if getattr(self, "depth", 0) > 6:
            raise Unsupported("call depth")
        self.depth = getattr(self, "depth", 0) + 1
        of = self.f
        self.f = F
        saved = {}
        for p, a in zip(F.params, args):
            n = p[0] if isinstance(p, (list, tuple)) else p
            saved[n] = st.env.get(n)
            self.store(st, ("v", n), a)
        outs = self.run(F.body, [st.copy()])
        self.f = of
        self.depth -= 1
        r = self.join(outs)
        st.env, st.mem, st.calls = r.env, r.mem, r.calls
        v = r.ret
        st.ret = None
        for n, x in saved.items():
            if x is not None:
                st.env[n] = x
        return v if v is not None else ("void",)

    def join(self, outs):
        """one state from the states at the end of alternatives"""
        outs = [o for o in outs]
        if len(outs) == 1:
            return outs[0]
        r = outs[-1].copy()
        for o in reversed(outs[:-1]):
            g = o.guard
            for n in set(r.env) | set(o.env):
                a, b = o.env.get(n), r.env.get(n)
                if a is None or b is None:
                    r.env[n] = a or b
                elif a != b:
                    r.env[n] = self.merge(g, a, b)
            for arr in set(r.mem) | set(o.mem):
                a, b = o.mem.get(arr, ()), r.mem.get(arr, ())
                if a == b:
                    continue
                r.mem[arr] = self.joinmem(g, a, b, o, r)
            if o.ret is not None:
                r.ret = o.ret if r.ret is None or r.ret == o.ret else self.merge(g, o.ret, r.ret)
            r.calls = r.calls + tuple(x for x in o.calls if x not in r.calls)
        r.guard = ONE
        r.cons = tuple(c for c in r.cons if all(c in o.cons for o in outs))
        return r

    def joinmem(self, g, a, b, sa, sb):
        i = 0
        while i < len(a) and i < len(b) and a[i] is b[i]:
            i += 1
        out = a[:i]
        ra, rb = a[i:], b[i:]
        if any(isinstance(x, Whole) or x.k is not None for x in ra + rb):
            raise Unsupported("loops on alternative paths")
        # points: same cells on both sides, or the older content
        idxs = []
        for x in ra + rb:
            if x.idx not in idxs:
                idxs.append(x.idx)
        res = list(out)
        for ix in idxs:
            va = self.readl(sa, a, ix)
            vb = self.readl(sb, b, ix)
            res.append(Layer(None, None, ix, b_ite(g, va, vb)))
        return tuple(res)

    def readl(self, st, layers, ix):
        t = st.copy()
        t.mem = {"?": layers}
        v = self.read(t, "?", ix)
        return v

    # -- statements --
    def run(self, s, states):
        if s is None:
            return states
        k = s[0]
        if k == "block":
            for c in s[2]:
                states = self.run(c, states)
            return states
        live = [x for x in states if x.ret is None]
        done = [x for x in states if x.ret is not None]
        if not live:
            return states
        if k == "expr":
            x = strip(s[2])
            out = []
            for st in live:
                if x[0] == "cond":
                    out += self.branch(st, x[3], ["expr", s[1], x[4]], ["expr", s[1], x[5]])
                else:
                    self.ev(st, s[2])
                    out.append(st)
            return done + out
        if k == "decl":
            for st in live:
                for d in s[2]:
                    n = d[0]
                    for q in [q for q in st.env if isinstance(q, str) and q.startswith(n + ".")]:
                        del st.env[q]
                    if d[2] is not None:
                        if d[2][0] == "init":
                            raise Unsupported("initialiser list")
                        self.store(st, ("v", n), self.ev(st, d[2]))
                    else:
                        st.env.pop(n, None)
            return done + live
        if k == "if":
            out = []
            for st in live:
                out += self.branch(st, s[2], s[3], s[4])
            return done + self.squash(out)
        if k == "ret":
            for st in live:
                st.ret = self.ev(st, s[2]) if s[2] is not None else ("void",)
            return done + live
        if k in ("for", "while"):
            out = []
            for st in live:
                out += self.loop(st, s)
            return done + out
        if k == "null" or k == "nop":
            return states
        raise Unsupported("statement " + k)

    def branch(self, st, c, th, el):
        g = self.cond(st, c)
        out = []
        if g != ZERO:
            a = st.copy()
            if g != ONE:
                a.guard = b_and(a.guard, g)
                a.cons = a.cons + tuple(lits(g, True))
            out += self.run(th, [a])
        if g != ONE:
            b = st.copy()
            if g != ZERO:
                b.guard = b_and(b.guard, b_not(g))
                b.cons = b.cons + tuple(lits(g, False))
            out += self.run(el, [b]) if el else [b]
        return out

    def squash(self, outs):
        return outs

    # -- loops --
    def loop(self, st, s):
        if s[0] == "for":
            init, cond, step, body = s[2], s[3], s[4], s[5]
            if init is not None:
                st = self.run(init, [st])[0]
        else:
            init, cond, step, body = None, s[2], None, s[3]
        gen = None
        nl = self.nodeloop(s)
        if nl is not None:
            gen, body = nl
            x = self.ev(st, ["var", s[1], None, init[2][0][0], "l"]) if init[0] == "decl" else None
            if x is None or x[0] != "sym":
                raise Unsupported("node loop")
            gen = (gen, x[1])
            step = None
        if cond is None:
            raise Unsupported("endless loop")
        for x in stmts(body):
            if x[0] in ("break", "cont", "goto", "ret"):
                raise Unsupported("jump out of a loop")
        asg = assigned(self.P, body, step)
        carried = [n for n in asg if n in st.env]
        k = ("k", self.fresh("k"))
        # first pass: how every carried scalar changes
        t = st.copy()
        t.reads = []
        t.cons = t.cons + (S(k),)
        if gen:
            t.env[gen[0]] = ("int", S(("node", gen[1], S(k))))
        names = {}
        for n in carried:
            v = st.env[n]
            if v[0] == "int":
                names[n] = ("x", n, k)
                t.env[n] = ("int", S(names[n]))
            elif v[0] == "rail":
                t.env[n] = ("rail", ("atom", ("carry", n, k)))
            elif v[0] == "ptr":
                names[n] = ("x", n, k)
                t.env[n] = ("ptr", v[1], S(names[n]))
            elif v[0] == "sym":
                t.env[n] = ("sym", ("x", n, k))
            else:
                raise Unsupported("carried " + v[0])
        nl = len(self.loops)
        wr = self.written(t, body, step)
        L0 = Loop()
        for arr in wr:
            t.mem[arr] = (Whole(("carried", arr, k)),)
        self.trial += 1
        end = self.join(self.run(body, [t]))
        if step is not None:
            self.ev(end, step)
        self.trial -= 1
        del self.loops[nl:]
        closed = {}
        for n in carried:
            v0, v1 = st.env[n], end.env.get(n)
            if v0[0] in ("int", "ptr"):
                p0 = v0[1] if v0[0] == "int" else v0[2]
                p1 = v1[1] if v0[0] == "int" else v1[2]
                x = S(names[n])
                d = p1 - x
                if not any(isinstance(y, tuple) and y[0] == "x" and y[2] == k for y in deepsyms(d)):
                    c = p0 + d * S(k)
                elif p1 == x + x and p0.const() is not None:
                    c = p0 * S(("pow2", S(k)))
                elif p0.const() is not None and self.saturates(p1, x) is not None:
                    c = S(("sat2", S(k), p0) + self.saturates(p1, x))
                elif p1 == S(("op/", x, P(2))):
                    c = S(("shr", p0, S(k)))
                else:
                    raise Unsupported("recurrence of %s" % n)
                closed[n] = ("int", c) if v0[0] == "int" else ("ptr", v0[1], c)
            elif v0[0] == "sym":
                if v1 == ("sym", ("fld", ("x", n, k), "next")):
                    closed[n] = ("sym", ("nth", v0[1], S(k)))
                elif v1 == v0:
                    closed[n] = v0
                elif n in self.hooks.get("arbi", ()) or v0[1][0] == "arbi":
                    closed[n] = self.hooks["recur"](v0, v1, ("x", n, k), S(k))
                else:
                    raise Unsupported("recurrence of %s" % n)
        # second pass, with the counters in closed form
        t = st.copy()
        t.reads = []
        t.env.update(closed)
        rails = [n for n in carried if st.env[n][0] == "rail"]
        for n in rails:
            t.env[n] = ("rail", ("atom", ("carry", n, k)))
        # number of iterations
        N = self.trips(t, cond, k) if not gen else S(("nnodes", gen[1]))
        if gen:
            t.env[gen[0]] = ("int", S(("node", gen[1], S(k))))
        t.cons = st.cons + (S(k), N - P(1) - S(k))
        nested = len(self.loops)
        inner = any(x[0] in ("for", "while") for x in stmts(body)) or self.has_inner(body)
        if inner:
            for arr in wr:
                t.mem[arr] = (Whole(("carried", arr, k)),)
        start = dict(t.mem)
        end = self.join(self.run(body, [t]))
        bodyend = end.copy()
        if step is not None:
            self.ev(end, step)
        L = Loop()
        L.k, L.N, L.inner, L.line = k, N, inner, s[1]
        L.init = {n: st.env[n][1] for n in rails}
        L.step = {n: end.env[n][1] for n in rails}
        L.before, L.after, L.end, L.cons = dict(st.mem), dict(bodyend.mem), bodyend, t.cons
        L.writes = []
        L.nested = self.loops[nested:]
        self.loops.append(L)
        out = st.copy()
        out.calls = end.calls
        out.reads = st.reads
        if inner:
            for arr in wr:
                out.mem[arr] = (Whole(("left", arr, k)),)
        else:
            kk = ("k", self.fresh("k"))
            for arr in wr:
                pre = start.get(arr, ())
                post = end.mem.get(arr, ())
                if post[:len(pre)] != pre:
                    raise Unsupported("array history")
                new = post[len(pre):]
                for w in new:
                    L.writes.append((arr, w.idx, w.expr))
                # reads of the same array must not hit cells of earlier iterations
                for (ra, e, cons) in t.reads:
                    if ra != arr:
                        continue
                    for w in new:
                        if not self.trial and not self.apart(e, w.idx.subst(k, S(kk)), k, kk, cons):
                            raise Unsupported("cells carried from one iteration to the next")
                # reads resolved in earlier layers of the same array
                for w in new:
                    self.check_old(end, arr, pre, w, k)
                out.mem[arr] = out.mem.get(arr, ()) + tuple(Layer(k, N, w.idx, w.expr, L) for w in new)
        for n in carried:
            v = st.env[n]
            if v[0] == "rail":
                out.env[n] = ("rail", ("atom", ("fold", n, k)))
            elif n in closed:
                out.env[n] = self.atk(closed[n], k, N)
        for n, v in end.env.items():
            if n not in out.env and n in asg:
                pass
        return [out]

    def saturates(self, p, x):
        """B when p is "x < B? 2x: x" for a fixed B"""
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if c != 1 or len(m) != 1 or not isinstance(m[0], tuple) or m[0][0] != "ite":
            return None
        g, a, b = m[0][1:]
        neg = False
        if (a, b) == (x, x + x):
            neg, a, b = True, b, a
        if (a, b) != (x + x, x):
            return None
        if neg:
            g = b_not(g)
        # c x < B is the negation of 0 <= c x - B
        g, less = (g[1], True) if g[0] == "not" else (g, False)
        if g[0] != "atom" or g[1][0] != "ge":
            return None
        q = g[1][1] if less else P(-1) - g[1][1]
        q = -q                      # c x < B  iff  not 0 <= c x - B;  q = B - c x
        xs = list(x.t)[0][0]
        a, B = linear(q, xs)
        if a is None or a >= 0 or any(y == xs for y in deepsyms(B)):
            return None
        return B, -a

    def nodeloop(self, s):
        """the idiom that runs through the nodes of a list of ranges: its variable and body"""
        if s[0] != "for" or s[5] is None or s[2] is None or s[2][0] != "decl":
            return None
        b = s[5]
        while b[0] == "block" and len(b[2]) == 1:
            b = b[2][0]
        if b[0] != "for" or b[2] is None or b[2][0] != "decl" or b[2][2][0][2] is None:
            return None
        i0 = strip(b[2][2][0][2])
        if i0[0] != "mem" or i0[4] != "from" or i0[6] != "ilist_rec" or strip(i0[3])[0] != "var" or strip(i0[3])[3] != s[2][2][0][0]:
            return None
        if not any(x[0] == "mem" and x[4] == "size" for x in walk(b[3])) or not any(x[0] == "mem" and x[4] == "to" for x in walk(b[4])):
            return None
        return b[2][2][0][0], b[5]

    def check_old(self, st, arr, pre, w, k):
        pass

    def atk(self, v, k, N):
        if v[0] == "int":
            return ("int", v[1].subst(k, N))
        if v[0] == "ptr":
            return ("ptr", v[1], v[2].subst(k, N))
        return ("sym", subst_sym(v[1], k, N))

    def apart(self, e, w, k, kk, cons):
        c = cons + (S(kk), S(k) - P(1) - S(kk))
        d = e - w
        return odd(d) or prove_nonneg(d - P(1), c) or prove_nonneg(-d - P(1), c)

    def has_inner(self, body):
        for e in stmt_exprs(body):
            for x in walk(e):
                if x[0] == "call":
                    F = self.P.funcs.get(callee(x))
                    if F is not None and F.file == self.f.file and F.body is not None and any(y[0] in ("for", "while") for y in stmts(F.body)):
                        return True
        return False

    def written(self, t, body, step):
        """arrays the body may write (by a trial run)"""
        u = t.copy()
        nl = len(self.loops)
        u.reads = []
        for arr in set(u.mem) | set(self.arrays.values()):
            u.mem[arr] = (Whole(("trial", arr)),)
        t = u.copy()
        self.trial += 1
        try:
            end = self.join(self.run(body, [u]))
        finally:
            del self.loops[nl:]
            self.trial -= 1
        return [a for a in end.mem if end.mem[a] != t.mem.get(a, ())]

    def trips(self, t, cond, k):
        """number of iterations from the continuation condition at iteration k"""
        c = strip(cond)
        g = None
        neg = False
        while c[0] == "un" and c[3] == "!":
            c, neg = strip(c[4]), not neg
        if c[0] == "bin" and c[3] in ("<", ">", "<=", ">=", "!=", "=="):
            a, b = self.ev(t.copy(), c[4]), self.ev(t.copy(), c[5])
            o = c[3]
            if a[0] == "int" and b[0] == "int":
                d = a[1] - b[1]
                if neg:
                    o = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[o]
                s, r = linear(d, k)
                if o == "<" and s == 1:
                    return -r
                if o == "<=" and s == 1:
                    return P(1) - r
                if o == ">" and s == -1:
                    return r
                if o == ">=" and s == -1:
                    return r + P(1)
                if o == "!=" and s == 1:
                    return -r
                if o == "!=" and s == -1:
                    return r
            else:
                x = a if a[0] == "sym" else b
                if x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "nth" and (o == "!=") != neg:
                    return S(("len", x[1][1]))
        else:
            x = self.ev(t.copy(), c)
            if x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "nth" and not neg:
                return S(("len", x[1][1]))
            if x[0] == "int" and not neg:
                s, r = linear(x[1], k)
                if s == -1:
                    return r
        raise Unsupported("loop condition " + show(cond))


INTS = {"int", "unint", "ui", "unsigned int", "bool", "long", "unsigned", "char", "short", "unsigned long", "size_t"}


def lits(g, pos):
    """linear facts from a condition taken with the given polarity"""
    if g[0] == "not":
        return lits(g[1], not pos)
    if g[0] == "atom" and g[1][0] == "ge":
        return [g[1][1]] if pos else [-g[1][1] - P(1)]
    if g[0] == "and" and pos:
        return lits(g[1], True) + lits(g[2], True)
    if g[0] == "or" and not pos:
        return lits(g[1], False) + lits(g[2], False)
    return []


def deepsyms(p):
    out = set()
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for s in x.syms():
                st.append(s)
        elif isinstance(x, tuple):
            out.add(x)
            st.extend(y for y in x if isinstance(y, (tuple, Poly)))
    return out


def odd(p):
    """p can never be zero, by parity"""
    return all(c % 2 == 0 for m, c in p.t.items() if m) and p.t.get((), 0) % 2 == 1


def linear(p, k):
    """(a, b) with p = a*k + b, a an integer and b free of k"""
    a, b = 0, {}
    for m, c in p.t.items():
        if m == (k,):
            a = c
        elif any(s == k or (isinstance(s, tuple) and k in deepsyms(Poly({(s,): 1})) and s != k) for s in m):
            return None, None
        else:
            b[m] = c
    return a, Poly(b)


def div(p, a):
    if a == 0:
        return None
    if any(c % a for c in p.t.values()):
        return None
    return Poly({m: c // a for m, c in p.t.items()})


def assigned(P, body, step):
    out = []
    es = list(stmt_exprs(body)) + ([step] if step is not None else [])
    for e in es:
        for x in walk(e):
            b = None
            if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
                b = strip(x[4])
            elif x[0] == "un" and x[3] in ("++", "--", "p++", "p--"):
                b = strip(x[4])
            elif x[0] == "un" and x[3] == "&":
                b = strip(x[4])
            if b is not None and b[0] == "var" and b[3] not in out:
                out.append(b[3])
    return out
