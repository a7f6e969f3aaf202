"""Boolean denotations of the functions that build and combine decision
diagrams and Boolean expressions.  A diagram is a Boolean expression over the
values of its variables and sons at one arbitrary assignment; what a function
returns on a path is compared with its specification as truth tables under the
facts of the path."""
from .absint import *

T, F = "T", "F"


def Not(e):
    if e == T:
        return F
    if e == F:
        return T
    if e[0] == "n":
        return e[1]
    return ("n", e)


def And(a, b):
    if a == F or b == F:
        return F
    if a == T or a == b:
        return b
    if b == T:
        return a
    return ("a", a, b)


def Or(a, b):
    return Not(And(Not(a), Not(b)))


def Xor(a, b):
    if a == F:
        return b
    if b == F:
        return a
    if a == T:
        return Not(b)
    if b == T:
        return Not(a)
    return ("x", a, b)


def Ite(c, t, e):
    if t == e:
        return t
    return ("i", c, t, e)


def atoms(e, out):
    if e in (T, F):
        return out
    if e[0] in ("n", "a", "x", "i"):
        for s in e[1:]:
            atoms(s, out)
    else:
        out.add(e)
    return out


class Table:
    def __init__(self, ats):
        self.ats = sorted(ats, key=repr)
        n = len(self.ats)
        if n > 23:
            raise AnalysisBroken("too many atoms in a truth table")
        self.full = (1 << (1 << n)) - 1
        self.pat = {}
        for i, a in enumerate(self.ats):
            blk = 1 << i
            unit = ((1 << blk) - 1) << blk
            p, w = unit, 2 * blk
            while w < (1 << n):
                p |= p << w
                w *= 2
            self.pat[a] = p
        self.memo = {}

    def t(self, e):
        if e == T:
            return self.full
        if e == F:
            return 0
        r = self.memo.get(e)
        if r is None:
            k = e[0]
            if k == "n":
                r = self.full & ~self.t(e[1])
            elif k == "a":
                r = self.t(e[1]) & self.t(e[2])
            elif k == "x":
                r = self.t(e[1]) ^ self.t(e[2])
            elif k == "i":
                c = self.t(e[1])
                r = (c & self.t(e[2])) | (self.full & ~c & self.t(e[3]))
            else:
                r = self.pat[e]
            self.memo[e] = r
        return r


def table(*es):
    ats = set()
    for e in es:
        atoms(e, ats)
    return Table(ats)


def B(e):
    return ("B", e)


def isB(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "B"


def base(e):
    """the node of an edge, without its complement bit"""
    return e[1] if e[0] == "n" else e


SUBS = [frozenset(x) for x in ("", "<", "=", ">", "<=", "<>", "=>", "<=>")]
INV = {r: frozenset({"<": ">", ">": "<", "=": "="}[x] for x in r) for r in SUBS}
C1 = {("<", "<"): "<", ("<", "="): "<", ("=", "<"): "<", ("=", "="): "=", (">", ">"): ">", (">", "="): ">", ("=", ">"): ">", ("<", ">"): "<=>", (">", "<"): "<=>"}
COMP = {(r, q): frozenset(c for x in r for y in q for c in C1[x, y]) for r in SUBS for q in SUBS}


class Bool(AI):
    """values: ("B",e) an edge; ("pos",e) without complement; ("sign",e);
    ("node",e) the record of an edge; ("var",e) its variable, ("ord",e) the
    position of that variable in the order, ("vp",e) its table entry;
    ("rec",n) a record, ("param",p) an unknown pointer"""
    MASKS = (1 << 31, 4)

    def __init__(self, P, report):
        super().__init__(P)
        self.report = report
        self.contracts = {}
        self.obl = 0
        self.fresh = 0
        self.consts = {}
        self.omemo = {}
        self.key_ok = None

    # ---- facts ----
    def cons(self, st):
        return st.get("C", frozenset())

    def fact(self, st, e):
        if e == T:
            return st
        c = self.cons(st) | {e}
        st = st.set("C", c)
        return st if self.sat(st) else None

    def axioms(self, es, st=None):
        """what relates the values of an edge to those of its sons"""
        out, seen = [], set()
        todo = set()
        for e in es:
            atoms(e, todo)
        todo = list(todo)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            f = a[1] if a[0] in ("h", "l", "s", "v", "bl", "br") and isinstance(a, tuple) else None
            if f is not None and f not in (T, F):
                ax = self.axiom(f, st)
                if ax is not None and ax not in out:
                    out.append(ax)
                    todo += list(atoms(ax, set()))
        return out

    def axiom(self, f, st=None):
        return Not(Xor(f, Xor(self.sign(f), Ite(("v", f), ("h", f), ("l", f)))))

    def tab(self, st, *es):
        es = list(es) + list(self.cons(st))
        ax = self.axioms(es, st)
        t = table(*(es + ax))
        m = t.full
        for c in list(self.cons(st)) + ax:
            m &= t.t(c)
        return t, m

    def sat(self, st):
        t, m = self.tab(st)
        return m != 0

    def valid(self, st, e):
        t, m = self.tab(st, e)
        return not (m & ~t.t(e))

    def same(self, st, a, b):
        return a == b or self.valid(st, Not(Xor(a, b)))

    def sign(self, e):
        if e in (T, F):
            return T if e == T else F
        return Not(self.sign(e[1])) if e[0] == "n" else ("s", e)

    def ord1(self, st, a, b):
        if a == b:
            return frozenset("=")
        r = st.get(("ord", a, b))
        if r is not None:
            return r
        r = st.get(("ord", b, a))
        if r is not None:
            return INV[r]
        # sons are below their father
        if a[0] in ("h", "l") and a[1] == b:
            return frozenset(">")
        if b[0] in ("h", "l") and b[1] == a:
            return frozenset("<")
        return frozenset("<=>")

    def ordrel(self, st, a, b):
        """possible relations of the positions of the variables of two nodes"""
        a, b = base(a), base(b)
        if a == b:
            return frozenset("=")
        ns = {a, b}
        for k in st.d:
            if isinstance(k, tuple) and k[0] == "ord":
                ns |= {k[1], k[2]}
        todo = list(ns)
        while todo:
            x = todo.pop()
            if x[0] in ("h", "l") and base(x[1]) not in ns:
                ns.add(base(x[1]))
                todo.append(base(x[1]))
        key = (a, b, frozenset((k, v) for k, v in st.d.items() if isinstance(k, tuple) and k[0] == "ord"))
        if key in self.omemo:
            return self.omemo[key]
        ns = list(ns)
        m = {(x, y): self.ord1(st, x, y) for x in ns for y in ns}
        ch = True
        while ch:
            ch = False
            for y in ns:
                for x in ns:
                    for z in ns:
                        r = m[x, z] & COMP[m[x, y], m[y, z]] if m[x, y] and m[y, z] else frozenset()
                        if r != m[x, z]:
                            m[x, z] = r
                            ch = True
        self.omemo[key] = m[a, b]
        return m[a, b]

    def setord(self, st, a, b, rel):
        a, b = base(a), base(b)
        r = self.ordrel(st, a, b) & rel
        if not r:
            return None
        if a == b:
            return st
        if st.get(("ord", b, a)) is not None:
            return self.setord(st, b, a, INV[r])
        st = st.set(("ord", a, b), r)
        if r == frozenset("="):
            return self.fact(st, Not(Xor(("v", a), ("v", b))))
        return st

    # ---- loads and stores ----
    def path(self, e):
        """(object expression, field path) of a member access"""
        fs = []
        while e[0] == "mem":
            fs.append(e[4])
            if e[5]:
                return e[3], ".".join(reversed(fs)), True
            e = e[3]
        return e, ".".join(reversed(fs)), False

    def objs(self, e, st):
        x, f, arrow = self.path(e)
        if arrow:
            return [(v, f, s) for v, s in self.ev(x, st)]
        x = strip(x)
        if x[0] == "var":
            return [(("rec", x[3]), f, st)]
        if x[0] == "un" and x[3] == "*":
            return [(v, f, s) for v, s in self.ev(x[4], st)]
        return [(None, f, s) for v, s in self.ev(x, st)]

    def norm(self, v):
        if isinstance(v, tuple) and v and v[0] == "addr":
            return ("rec", v[1])
        return v

    def ev(self, e, st):
        if e is not None and e[0] == "un" and e[3] == "&":
            x = strip(e[4])
            if x[0] == "var":
                return [(("addr", x[3]), st)]
            if x[0] == "idx":
                return self.ev(["bin", e[1], e[2], "+", x[3], x[4]], st)
        # the outcome of a test that is kept as a value is a fact as well
        if e is not None and e[0] == "bin" and e[3] in ("&&", "||") or e is not None and e[0] == "un" and e[3] == "!":
            return [(int(t), s) for s, t in self.branch(e, st)]
        r = super().ev(e, st)
        if e is not None and e[0] == "bin" and e[3] in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for v, s in r:
                if v is not None:
                    out.append((v, s))
                    continue
                fk = []
                for t in (True, False):
                    q = self.h_assume(e, None, t, s)
                    fk += [(int(t), x) for x in (q if isinstance(q, list) else [q]) if x is not None]
                out += fk if any(x is not s for _, x in fk) else [(None, s)]
            return list(dict.fromkeys(out))
        return r

    def h_load(self, e, st):
        if e[0] == "var":
            n = e[3].split("@")[0]
            if n in self.consts:
                return self.consts[n], st
            if e[4] in ("g", "s"):
                return ("glob", n), st
            return None
        if e[0] == "un" and e[3] == "*" or e[0] == "idx":
            out = []
            for v, s in self.ev(e[4] if e[0] == "un" else ["bin", e[1], e[2], "+", e[3], e[4]], st):
                v = self.norm(v)
                if isinstance(v, tuple):
                    out.append((self.deref(v, s, e), s))
                else:
                    out.append((None, s))
            return out
        if e[0] == "mem":
            return [(self.field(v, f, s, e), s) for v, f, s in self.objs(e, st)]
        return None

    def deref(self, v, st, e):
        if v[0] == "rec" and isinstance(v[1], str) and st.get(v[1]) is not None:
            return st.get(v[1])
        return st.get(("*", v))

    def field(self, v, f, st, e):
        v = self.norm(v)
        if v is None:
            return None
        if isinstance(v, tuple) and v[0] == "pos":
            v = ("node", v[1])
        if isB(v):
            v = self.direct(v, f, st, e)
        r = st.get((v, f))
        if r is not None:
            return r
        if isinstance(v, tuple):
            return self.loadfield(v, f, st, e)
        return None

    def direct(self, v, f, st, e):
        """a field is read through an edge that may be complemented"""
        return ("node", base(v[1]))

    def loadfield(self, v, f, st, e):
        return None

    def h_store(self, e, l, v, st):
        if l[0] == "mem":
            for o, f, s in self.objs(l, st):
                o = self.norm(o)
                if isinstance(o, tuple):
                    if o[0] == "pos":
                        o = ("node", o[1])
                    st = self.storefield(e, o, f, v, st)
        elif l[0] == "un" and l[3] == "*" or l[0] == "idx":
            for o, s in self.ev(l[4] if l[0] == "un" else ["bin", l[1], l[2], "+", l[3], l[4]], st):
                o = self.norm(o)
                if isinstance(o, tuple):
                    src = strip(e[5]) if e[0] == "bin" else None
                    if src is not None and src[0] == "var" and any(isinstance(k, tuple) and k[0] == ("rec", src[3]) for k in st.d):
                        for k in list(st.d):
                            if isinstance(k, tuple) and k[0] == ("rec", src[3]):
                                st = st.set((o, k[1]), st.get(k))
                    elif o[0] == "rec" and isinstance(o[1], str):
                        st = st.set(o[1], v)
                    else:
                        st = self.storederef(e, o, v, st)
        return st

    def storederef(self, e, o, v, st):
        return st.set(("*", o), v)

    def storefield(self, e, o, f, v, st):
        return st.set((o, f), v)

    # ---- operators ----
    def h_bin(self, op, a, b, st):
        if isinstance(a, int) and not isinstance(b, int):
            if op in ("^", "&", "*", "+"):
                a, b = b, a
        if isB(a) and isinstance(b, int):
            b &= 0xffffffff
            if op == "^" and b in self.MASKS:
                return B(Not(a[1]))
            if op == "&":
                return ("sign", a[1]) if b in self.MASKS else ("pos", base(a[1]))
        if op in ("==", "!="):
            if isB(a) and isB(b):
                if a == b:
                    return int(op == "==")
                if a[1] in (T, F) and b[1] in (T, F):
                    return int(op == "!=")
                return None
            if isinstance(a, tuple) and a[0] in ("rec", "vp", "node", "str", "crec", "leaf", "g", "gf", "name", "map") and b == 0:
                return int(op == "!=")
            if isinstance(b, tuple) and b[0] in ("rec", "vp", "node", "str", "crec", "leaf", "g", "gf", "name", "map") and a == 0:
                return int(op == "!=")
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "pos" and b[0] == "pos" and a == b:
                return int(op == "==")
            if isinstance(a, tuple) and a[0] == "sign" and b == 0:
                sg = self.sign(a[1])
                return None if sg not in (T, F) else int((sg == T) == (op == "!="))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "ord" and b[0] == "ord" and op in ("<", ">", "==", "!=", "<=", ">="):
            r = self.ordrel(st, a[1], b[1])
            want = frozenset({"<": "<", ">": ">", "==": "=", "!=": "<>", "<=": "<=", ">=": ">="}[op])
            if r <= want:
                return 1
            if not (r & want):
                return 0
            return None
        if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in ((a, b), (b, a)):
                if x[0] == "glob" and y[0] == "pos":
                    return ("node", y[1])
                if x[0] == "glob" and isB(y):
                    # the positive index itself
                    return self.indexed(x, y, st)
                if x[0] == "glob" and y[0] == "var":
                    return ("vp", y[1])
        if op == "-" and isinstance(a, tuple) and isinstance(b, tuple) and b[0] == "glob":
            if a[0] == "node":
                return B(a[1])
            if a[0] == "vp":
                return ("var", a[1])
        return None

    def indexed(self, g, y, st):
        return ("node", base(y[1])) if self.valid(st, Not(self.sign(y[1]))) or y[1][0] != "n" else None

    def truth(self, v):
        if isinstance(v, tuple) and v and v[0] in ("rec", "node", "vp", "crec", "g", "gf", "leaf", "name"):
            return True
        if isB(v):
            return None
        if isinstance(v, tuple) and v and v[0] == "sign":
            sg = self.sign(v[1])
            return None if sg not in (T, F) else sg == T
        return super().truth(v)

    def ev_pure(self, x, st):
        r = self.ev(x, st)
        return r[0][0] if len(r) == 1 else None

    def h_assume(self, e, v, truth, st):
        x = strip(e)
        if x[0] == "bin" and x[3] in ("==", "!=", "<", ">", "<=", ">="):
            if any(y[0] == "bin" and y[3] == "=" for y in walk(x)):
                return st
            a, b = self.ev_pure(x[4], st), self.ev_pure(x[5], st)
            op = x[3]
            if not truth:
                op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            return self.rel(op, a, b, st)
        if isinstance(v, tuple) and v:
            if v[0] == "sign":
                sg = self.sign(v[1])
                return self.fact(st, sg if truth else Not(sg))
            if v[0] == "pos":
                return self.rel("!=" if truth else "==", v, 0, st)
        return st

    def rel(self, op, a, b, st):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if isB(a) and isB(b):
                if op == "==":
                    return self.fact(st, Not(Xor(a[1], b[1])))
                if op == "!=":
                    return None if self.same(st, a[1], b[1]) else st
            if a[0] == "pos" and b[0] == "pos":
                if op == "==":
                    return [s for s in (self.fact(st, Not(Xor(a[1], b[1]))), self.fact(st, Xor(a[1], b[1]))) if s is not None]
            if a[0] == "ord" and b[0] == "ord" and op in ("<", ">", "==", "!=", "<=", ">="):
                return self.setord(st, a[1], b[1], frozenset({"<": "<", ">": ">", "==": "=", "!=": "<>", "<=": "<=", ">=": ">="}[op]))
            if a[0] == "pos" and isB(b) or isB(a) and b[0] == "pos":
                p, c = (a, b) if a[0] == "pos" else (b, a)
                if c[1] in (T, F):
                    return self.rel(op, p, 0, st)
                if op == "==":
                    s = self.fact(st, Not(self.sign(c[1])))
                    return self.rel(op, p, ("pos", base(c[1])), s) if s is not None else None
        if isinstance(b, int) and isinstance(a, tuple):
            if a[0] == "pos" and b == 0:
                if op == "==":
                    return [s for s in (self.fact(st, a[1]), self.fact(st, Not(a[1]))) if s is not None]
                return st
            if a[0] == "sign" and b == 0:
                sg = self.sign(a[1])
                return self.fact(st, sg if op == "!=" else Not(sg))
        return st

    # ---- calls ----
    def h_call(self, n, e, a, st):
        c = self.contracts.get(n)
        if c is not None:
            return c(e, a, st)
        return None

    def h_unknown(self, n, e, a, st):
        # what is reached through an address may have changed
        for v in a:
            if isinstance(v, tuple) and v and v[0] == "addr":
                st = st.set(v[1], None)
        return [(None, st)]

    def h_inline(self, g, args, st):
        """helpers that are given part of what is specified"""
        return not args or any(isinstance(v, tuple) and v and v[0] not in ("str", "glob", "fn") for v in args)

    def new(self, tag):
        self.fresh += 1
        return (tag, self.fresh)


def B1(v):
    return v[1]


class Graph:
    """mixin: the graph-level view of a built-in.  ("g",path) is a node of the
    argument spine, ("gf",path) the failure its evaluation ended in; the value
    of a leaf of argument k is the atom a<k>"""
    LEAFKIND = ("BOOL", "BEXPR")
    aname = "a"

    def graph_contracts(self, nargs):
        self.nargs = nargs
        c = self.contracts
        c["f_GET_APPLY_LEFT"] = lambda e, a, st: [(self.sub(a[0], "L"), st)]
        c["f_GET_APPLY_RIGHT"] = lambda e, a, st: [(self.sub(a[0], "R"), st)]
        for n in ("f_GET_BOOL", "f_GET_BEXPR", "GET_BOOL", "GET_BEXPR"):
            c[n] = self.k_get
        for n in ("reduce", "force", "traverse_left"):
            c[n] = self.k_eval
        c["VX_IS"] = self.k_is
        for n in ("is_fail", "IS_FAILURE"):
            c[n] = lambda e, a, st: self.k_is(e, [None] + a, st, "FAILURE")
        c["VX_OVERWRITE"] = self.k_over
        for k in ("BOOL", "BEXPR", "FAILURE", "INT", "AINT", "STRING", "NIL", "VOID", "CONS", "APPL"):
            c["VX_MK_" + k] = lambda e, a, st, k=k: [(None, self.out(st, a[0], (k,) + tuple(a[1:])))]
        c["Make_BOOL_leaf"] = lambda e, a, st: [(("leaf", "BOOL", a[0]), st)]
        c["Make_BEXPR_leaf"] = lambda e, a, st: [(("leaf", "BEXPR", a[0]), st)]
        c["Make_0inp_Primitive"] = lambda e, a, st: [(("leaf", "PRIM", a[0]), st)]
        for n in ("dec_ref_cnt", "VX_INC_REFCNT", "VX_SETP", "VX_SETF", "PUSH_GLOBAL_GC", "POP_GLOBAL_GC", "PUSH_BDD_GC", "POP_BDD_GC"):
            c[n] = lambda e, a, st: [(None, st)]

    def sub(self, v, x):
        return ("g", v[1] + (x,)) if isinstance(v, tuple) and v and v[0] == "g" else None

    def arg(self, p):
        """which argument a path leads to"""
        if p and p[-1] == "R" and all(x == "L" for x in p[:-1]) and len(p) <= self.nargs:
            return self.nargs - len(p) + 1
        if len(p) == 1 and isinstance(p[0], int):
            return p[0]
        return None

    def k_get(self, e, a, st):
        v = a[0]
        if isinstance(v, tuple) and v:
            if v[0] == "leaf" and v[1] in self.LEAFKIND:
                return [(v[2], st)]
            if v[0] == "gf":
                self.report(e[1], "failure", "the value of an operand is read although its evaluation may have failed")
                return [(None, st)]
            if v[0] == "g":
                k = self.arg(v[1])
                if k is not None:
                    return [(B(("at", "%s%d" % (self.aname, k))), st)]
        return [(None, st)]

    def k_eval(self, e, a, st):
        if isinstance(a[0], tuple) and a[0][0] == "g":
            return [(a[0], st.set(("done", a[0][1]), 1)), (("gf", a[0][1]), st)]
        return [(None, st)]

    def k_is(self, e, a, st, k=None):
        k = k or (a[0][1] if isinstance(a[0], tuple) and a[0][0] == "str" else None)
        v = a[1]
        if isinstance(v, tuple) and v and v[0] in ("g", "gf", "leaf"):
            if k == "FAILURE" and v[0] in ("g", "gf"):
                return [(int(v[0] == "gf"), st)]
            if v[0] == "leaf":
                return [(int(v[1] == k), st)]
            if v[0] == "g" and (k == "NIL" or self.arg(v[1]) is not None):
                r = st.get(("is", k, v[1]))
                if r is not None:
                    return [(r, st)]
                return [(r, st.set(("is", k, v[1]), r)) for r in (1, 0)]
        return [(None, st)]

    def out(self, st, red, what):
        return st.set("out", what) if isinstance(red, tuple) and red and red[0] == "g" and red[1] == () else st

    def k_over(self, e, a, st):
        v = a[1]
        if isinstance(v, tuple) and v and v[0] == "gf":
            return [(None, self.out(st, a[0], ("FAILS", v[1])))]
        if isinstance(v, tuple) and v and v[0] == "g":
            return [(None, self.out(st, a[0], ("ARG", self.arg(v[1]))))]
        if isinstance(v, tuple) and v and v[0] == "leaf":
            return [(None, self.out(st, a[0], v[1:]))]
        return [(None, self.out(st, a[0], ("?", v)))]
