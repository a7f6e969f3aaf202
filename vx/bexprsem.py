"""Boolean expressions (and-inverter graphs): what each function returns."""
from .boolsem import *

AND_T, VAR_T, ONE_T = 2, 1, 3
CONN = {
    "BE_One": (0, lambda: T), "BE_Zero": (0, lambda: F), "BE_Not": (1, Not), "BE_And": (2, And), "be_and": (2, And), "BE_Or": (2, Or),
    "BE_Nor": (2, lambda a, b: Not(Or(a, b))), "BE_Nand": (2, lambda a, b: Not(And(a, b))), "BE_Xor": (2, Xor),
    "BE_Xnor": (2, lambda a, b: Not(Xor(a, b))), "BE_Ite": (3, lambda c, t, e: Or(And(c, t), And(Not(c), e))),
}
BCONN = {"B_One": (0, lambda: T), "B_Zero": (0, lambda: F), "B_Not": (1, Not), "B_And": (2, And), "B_Or": (2, Or), "B_Xor": (2, Xor),
         "B_Xnor": (2, lambda a, b: Not(Xor(a, b))), "B_Ite": (3, Ite)}
MEM = ("memo",)


def at(n):
    return ("at", n)


class Bex(Graph, Bool):
    """kind "be": edges are bexpr; kind "bdd": edges are formulas"""
    INLINE = 60
    positive = ()
    subkind = "leaf"

    def __init__(self, P, f, report, kind="be", nargs=0, skip=()):
        super().__init__(P, report)
        self.f = f
        self.kind = kind
        self.MASKS = (4,) if kind == "be" else (1 << 31, 4)
        self.consts = {"BE_TRUE": B(T), "BE_FALSE": B(F), "ONE": B(T), "ZERO": B(F)}
        self.graph_contracts(nargs)
        c = self.contracts
        for tbl in (CONN, BCONN):
            for n, (k, sp) in tbl.items():
                if n != f.short:
                    c[n] = lambda e, a, st, sp=sp: [(B(sp(*[x[1] for x in a])) if all(isB(x) for x in a) else None, st)]
        c["be_find_insert"] = self.k_insert
        c["BE_Var"] = c["B_Var"] = self.k_var
        c["Get_top_cofactor"] = self.k_cof
        c["find_hash"] = self.k_find
        c["insert_hash"] = self.k_put
        c["push_buf"] = self.k_push
        c["get_be_node"] = lambda e, a, st: [(("rec", "new%d" % e[1]), st)]
        c["check_for_eq_with_SAT"] = self.k_same
        c["SAT_Add_AND_Clauses"] = lambda e, a, st: [(("satand",) + tuple(a), st)]
        c["SAT_and_is_same"] = lambda e, a, st: [(("satsame",) + tuple(a), st)]
        c["SAT_Add_Var"] = lambda e, a, st: [(("satvar",), st)]
        c["Find_model"] = lambda e, a, st: [(("model",) + tuple(a) + ((st.get(("asm", 0)),)), st)]
        c["Gen_map"] = c["Gen_map2"] = self.k_map2
        c["wastrsave"] = lambda e, a, st: [(a[1], st)]
        for n in skip:
            c.pop(n, None)
        self.memo = {"find": None}
        self.memotbls = self.memo_tables(f)
        self.spec = None        # the function a memo table stands for
        self.rec = {}

    def memo_tables(self, f):
        """tables that the function enters its own results in"""
        out = set()
        for e in all_exprs(f):
            if e[0] == "call" and callee(e) == "insert_hash":
                a = strip(e[4][0])
                if a[0] == "un" and strip(a[4])[0] == "var":
                    out.add(strip(a[4])[3])
        return out

    # ---- constants: the complemented constant is F ----
    def sign(self, e):
        if isinstance(e, tuple) and (e in self.positive or e[0] == "new"):
            return F
        if self.kind == "bdd":
            return super().sign(e)
        if e in (T, F):
            return F if e == T else T
        return Not(self.sign(e[1])) if e[0] == "n" else ("s", e)

    def axiom(self, f, st=None):
        if self.kind == "bdd":
            return super().axiom(f)
        if st is not None and st.get(("type", f)) == AND_T:
            return Not(Xor(f, Xor(self.sign(f), And(("h", f), ("l", f)))))
        return None

    def ctype(self, e):
        g = self.stack[-1] if self.stack else self.f
        try:
            return g.types[e[2]]
        except Exception:
            return None

    def h_load(self, e, st):
        if e[0] == "var" and e[4] in ("g", "s"):
            n = e[3].split("@")[0]
            if n not in self.consts and self.ctype(e) in ("bexpr", "formula"):
                return B(at("global %s" % n)), st
        if e[0] == "var" and e[4] == "l" and "[" in (self.ctype(e) or ""):
            return ("arr", e[3], 0), st
        return super().h_load(e, st)

    def direct(self, v, f, st, e):
        e0 = v[1]
        self.obl += 1
        if not self.valid(st, Not(self.sign(e0))):
            self.report(e[1], "tagged", "the field %s is read through a pointer that may carry the complement bit" % f)
        return ("node", base(e0))

    def loadfield(self, v, f, st, e):
        if v[0] == "node":
            n = v[1]
            if f == "l.be":
                return B(("h", n))
            if f == "r":
                return B(("l", n))
            if f == "type":
                t = st.get(("type", n))
                return t if t is not None else ("btype", n)
            if f == "l.name":
                return ("name", n)
            if f == "sat_idx":
                return ("lit", n)
            if f == "height":
                return ("height", n)
            if f == "bdd":
                return B(self.cached(n))
            if f == "same_sig_list":
                self.fresh += 1
                return B(at("candidate"))
        if v[0] == "rec" and f == "buf_size":
            return st.get(("top", v[1]))
        return None

    def cached(self, n):
        """the diagram kept in a node is that of the expression itself"""
        return n

    def h_bin(self, op, a, b, st):
        if op == "+" and isinstance(a, tuple) and a[0] == "arr" and isinstance(b, int):
            return ("arr", a[1], a[2] + b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == "lit" and y == -1 and op == "*":
                return ("lit", Not(x[1]))
            if op in ("==", "!=") and y == 0 and isinstance(x, tuple) and x and (x[0] in ("idx", "subval") or isB(x) and self.memo_kind == "value"):
                return int(op == "!=")
        if op == "&" and isB(a) and isinstance(b, int) and (b & 0xffffffff) not in self.MASKS and a[1] not in (T, F) and base(a[1]) in self.positive:
            return B(base(a[1]))
        if op in ("==", "!=") and isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("btype",) and a == b:
            return int(op == "==")
        if op == "-" and isinstance(a, tuple) and a[0] == "idx" and b == 1:
            return ("idx0", a[1])
        if op in ("+", "*", "<", ">", ">=", "<=") and any(isinstance(x, tuple) and x and x[0] == "idx0" for x in (a, b)):
            return [x for x in (a, b) if isinstance(x, tuple) and x and x[0] == "idx0"][0] if op in "+*" else 1
        return super().h_bin(op, a, b, st)

    def h_un(self, op, v, st):
        if op == "-" and isinstance(v, tuple) and v and v[0] == "lit":
            return ("lit", Not(v[1]))
        return None

    def truth(self, v):
        if isinstance(v, tuple) and v and (v[0] in ("idx", "idx0", "subval") or isB(v) and self.memo_kind == "value"):
            return True
        return super().truth(v)

    def deref(self, v, st, e):
        if v[0] == "idx0":
            return v[1]
        return super().deref(v, st, e)

    def settype(self, st, n, t):
        o = st.get(("type", n))
        if o is not None:
            return st if o == t else None
        if t in st.get(("nottype", n), ()):
            return None
        return st.set(("type", n), t)

    def h_case(self, n, val, st):
        v = self.ev_pure(n.expr, st)
        if isinstance(v, tuple) and v[0] == "btype":
            if val is not None:
                return self.settype(st, v[1], val) or st
        return st

    def rel(self, op, a, b, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == "btype" and isinstance(y, int):
                if op == "==":
                    return self.settype(st, x[1], y)
                if op == "!=":
                    s = st.set(("nottype", x[1]), st.get(("nottype", x[1]), frozenset()) | {y})
                    left = {AND_T, VAR_T} - s.get(("nottype", x[1]))
                    if len(left) == 1:
                        s = self.settype(s, x[1], left.pop())
                    return s
        return super().rel(op, a, b, st)

    # ---- contracts ----
    def k_insert(self, e, a, st):
        o = self.norm(a[0])
        if not (isinstance(o, tuple) and o[0] == "rec"):
            return [(None, st)]
        t = st.get((o, "type"))
        self.obl += 1
        h = st.get((o, "height"))
        if t == AND_T:
            l, r = st.get((o, "l.be")), st.get((o, "r"))
            if isB(l) and isB(r):
                return [(B(And(l[1], r[1])), st)]
        if t == VAR_T:
            n = st.get((o, "l.name"))
            if isinstance(n, tuple) and n[0] == "name":
                return [(B(n[1]), st)]
        self.report(e[1], "requires", "a node is looked up before its kind and operands are set")
        return [(None, st)]

    def k_var(self, e, a, st):
        if isinstance(a[0], tuple) and a[0][0] == "name":
            return [(B(a[0][1]), st)]
        return [(None, st)]

    def k_cof(self, e, a, st):
        f = a[0]
        self.obl += 1
        if not isB(f):
            return [(None, st)]
        if self.valid(st, f[1]) or self.valid(st, Not(f[1])):
            self.report(e[1], "requires", "the cofactors of a constant are taken")
        g = base(f[1])
        cof = lambda x: Xor(x, self.sign(f[1]))
        for p, v in zip(a[1:], (("name", ("v", g)), B(cof(("h", g))), B(cof(("l", g))))):
            p = self.norm(p)
            if isinstance(p, tuple) and p[0] == "rec":
                st = st.set(p[1], v)
        return [(None, st)]

    def tblname(self, v):
        return v[1] if isinstance(v, tuple) and v[0] in ("addr", "glob") else None

    def k_find(self, e, a, st):
        t = self.tblname(a[0])
        o = self.norm(a[1])
        if t in self.memotbls and self.spec is not None and (isB(o) or isinstance(o, tuple) and o[0] in ("pos", "node")):
            k = o[1]
            v = B(self.spec(k))
            if self.memo_kind == "idx":
                return [(0, st), (("idx", v), st)]
            return [(0, st.set("missed", 1)), (v, st.set("hit", 1))]
        if isinstance(o, tuple) and o[0] == "name":
            if self.env == "none":
                return [(0, st)]
            return [(0, st.set("envhit", 0)), (("subval", o[1]) if self.subkind == "leaf" else B(("subval", o[1])), st.set("envhit", 1))]
        return [(None, st)]

    env = "none"
    memo_kind = "value"

    def k_put(self, e, a, st):
        t = self.tblname(a[0])
        o = self.norm(a[1])
        if t in self.memotbls and self.spec is not None and (isB(o) or isinstance(o, tuple) and o[0] in ("pos", "node")):
            self.obl += 1
            w = self.spec(o[1])
            v = a[2]
            if isinstance(v, tuple) and v[0] == "idx":
                v = v[1]
            if isB(v):
                if not self.match(st, w, v[1]):
                    self.report(e[1], "memo", "what is entered in a table of results is not the result for the expression it is entered under")
            elif v is not None:
                self.report(e[1], "memo", "what is entered in a table of results is not a result")
        return [(None, st)]

    def k_push(self, e, a, st):
        b, p = self.norm(a[0]), self.norm(a[1])
        if isinstance(b, tuple) and b[0] == "rec" and isinstance(p, tuple) and p[0] == "rec":
            v = st.get(p[1])
            if v is not None:
                st = st.set(("top", b[1]), ("idx", v))
        return [(None, st)]

    def k_same(self, e, a, st):
        l, r, c = a
        if all(isB(x) for x in a):
            s = self.fact(st, Not(Xor(c[1], And(l[1], r[1]))))
            return [(0, st)] + ([(1, s)] if s is not None else [])
        return [(None, st)]

    def k_eval(self, e, a, st):
        # evaluation may run any built-in: what is kept in static variables is lost
        r = super().k_eval(e, a, st)
        out = []
        for v, s in r:
            ks = {k for k in s.d if isinstance(k, str) and "@" in k}
            for k in ks:
                s = s.set(k, B(at("clobbered")))
            out.append((v, s))
        return out

    def k_map2(self, e, a, st):
        """a function applied to the leaves of one or two structures"""
        k = [i for i, v in enumerate(a) if isinstance(v, tuple) and v and v[0] == "fn"]
        if len(k) != 1:
            return [(None, st)]
        fn = a[k[0]][1]
        ro = a[-1]
        args = tuple(a[k[0] + 1:-1])
        stat = {x: st.get(x) for x in st.d if isinstance(x, str) and "@" in x}
        for x in self.written(fn):
            st = st.set(x, ("fold", fn, x, st.get(x)))
        v = ("map", fn, args, tuple(sorted(stat.items(), key=repr)))
        if ro:
            # nothing is built; a failure when the structures differ in shape
            return [(0, st.set("map", v)), (("leaf", "PRIM", None), st)]
        return [(v, st)]

    def written(self, fn):
        f = self.P.funcs.get(fn)
        out = set()
        for e in all_exprs(f) if f else ():
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] in "gs":
                out.add(strip(e[4])[3])
        return out

    # ---- recursion ----
    def selfcall(self, spec):
        def k(e, a, st):
            if isB(a[0]):
                return [(B(spec(a[0][1])), st)]
            return [(None, st)]
        return k

    def laws(self, st, e):
        out = [e]
        if e in (T, F):
            return out
        if e[0] == "Sb":
            f = e[1]
            if self.valid(st, f):
                return [T]
            if self.valid(st, Not(f)):
                return [F]
            t = st.get(("type", f))
            if t == VAR_T:
                h = st.get("envhit")
                if h == 1:
                    return [("subval", f)]
                if h == 0:
                    return [f]
            if t == AND_T:
                return [e, And(self.Sb(("h", f)), self.Sb(("l", f)))]
        return out

    def Sb(self, e):
        if e in (T, F):
            return e
        return Not(self.Sb(e[1])) if e[0] == "n" else ("Sb", e)

    def match(self, st, want, got):
        if want not in (T, F) and want[0] == "n":
            return self.match(st, want[1], Not(got))
        return any(self.same(st, w, got) for w in self.laws(st, want))

    def k_get(self, e, a, st):
        v = a[0]
        if isinstance(v, tuple) and v and v[0] == "subval":
            return [(B(("subval", v[1])), st)]
        return super().k_get(e, a, st)


def sh(e):
    if e in (T, F):
        return "1" if e == T else "0"
    k = e[0]
    if k == "n":
        return "!" + sh(e[1])
    if k == "a":
        return "(%s & %s)" % (sh(e[1]), sh(e[2]))
    if k == "x":
        return "(%s ^ %s)" % (sh(e[1]), sh(e[2]))
    if k == "i":
        return "(%s ? %s : %s)" % tuple(sh(x) for x in e[1:])
    if k == "at":
        return str(e[1])
    nm = {"h": "left", "l": "right", "v": "var", "s": "sign"}.get(k, k)
    return "%s(%s)" % (nm, ",".join(sh(x) if isinstance(x, tuple) or x in (T, F) else str(x) for x in e[1:]))


def facts_of(I, st):
    fs = [sh(c) for c in sorted(I.cons(st), key=repr)]
    for k in st.d:
        if isinstance(k, tuple) and k[0] == "type":
            fs.append("%s is %s" % (sh(k[1]), {1: "a variable", 2: "an AND", 3: "a constant"}.get(st.get(k), st.get(k))))
    return ", ".join(fs) or "no condition"


class Runner:
    def __init__(self, P, report):
        self.P, self.rep = P, report
        self.done = []
        self.obl = 0
        self.paths = 0

    def fn(self, name, file="bexpr.c"):
        fs = [f for f in self.P.funcs.values() if f.short == name and f.file.endswith(file)]
        if not fs:
            raise AnalysisBroken("function %s was not found" % name)
        return fs[0]

    def engine(self, f, **kw):
        return Bex(self.P, f, lambda line, rule, msg: self.rep(f, line, rule, msg), **kw)

    def run(self, I, f, args, pre=None):
        d = {p[0]: v for p, v in zip(f.params, args) if v is not None}
        if pre:
            d.update(pre)
        I.stopped = []
        res = [(v, s) for v, s in I.run(f, St(d)) if I.sat(s)]
        if not res:
            raise AnalysisBroken("no returning path of %s" % f.short)
        return res

    def finish(self, I, f, n):
        self.done.append((f.short, n, I.obl))
        self.obl += I.obl
        self.paths += n

    def value(self, name, args, want, setup=None, pre=None, file="bexpr.c", **kw):
        f = self.fn(name, file)
        I = self.engine(f, **kw)
        if setup:
            setup(I, f)
        res = self.run(I, f, args, pre)
        for v, s in res:
            I.obl += 1
            w = want(I, s)
            if not isB(v):
                self.rep(f, f.line, "value", "%s returns something that is not an expression (when %s)" % (name, facts_of(I, s)))
            elif not I.match(s, w, v[1]):
                self.rep(f, f.line, "value", "%s returns %s instead of %s when %s" % (name, sh(v[1]), " or ".join(sh(x) for x in I.laws(s, w)), facts_of(I, s)))
        self.finish(I, f, len(res))
        return I

    def signs(self, n):
        """edges of every sign for n operands"""
        import itertools
        ats = [at("f%d" % (i + 1)) for i in range(n)]
        return set(ats), [[B(Not(a) if s else a) for a, s in zip(ats, sg)] for sg in itertools.product((0, 1), repeat=n)]

    def node(self, name="be_find_insert"):
        """the node made for a conjunction or a variable"""
        f = self.fn(name)
        rec = ("rec", "in")
        for t in (AND_T, VAR_T):
            pos, cases = self.signs(2) if t == AND_T else ({at("f1")}, [[("name", at("f1"))]])
            for ops in cases:
                I = self.engine(f, skip=(name,))
                I.positive = pos
                I.memotbls = ()
                pre = {(rec, "type"): t}
                if t == AND_T:
                    pre.update({(rec, "l.be"): ops[0], (rec, "r"): ops[1]})
                    val = And(ops[0][1], ops[1][1])
                else:
                    pre[(rec, "l.name")] = ops[0]
                    val = at("f1")

                def find(e, a, st, val=val):
                    o = I.norm(a[1])
                    if o != rec:
                        return [(0, st), (B(at("other")), st)]
                    if I.tblname(a[0]) == I.uniq:
                        return [(0, st), (B(val), st)]
                    return [(0, st), (B(at("candidate")), st)]
                I.uniq = self.uniq()
                I.positive = pos | {at("candidate"), at("other")}
                I.contracts["find_hash"] = find

                def put(e, a, st):
                    if I.tblname(a[0]) == I.uniq:
                        return [(None, st.set("entered", (I.norm(a[1]), I.norm(a[2]))))]
                    return [(None, st)]
                I.contracts["insert_hash"] = put
                I.memo_kind = "value"
                res = self.run(I, f, [rec], pre)
                for v, s in res:
                    I.obl += 1
                    v = I.norm(v)
                    if isB(v):
                        if not I.match(s, val, v[1]):
                            self.rep(f, f.line, "value", "%s returns %s for %s (when %s)" % (name, sh(v[1]), sh(val), facts_of(I, s)))
                        continue
                    if not (isinstance(v, tuple) and v[0] == "rec"):
                        self.rep(f, f.line, "value", "%s does not return a node" % name)
                        continue
                    g = lambda x: s.get((v, x))
                    bad = []
                    if g("type") != t:
                        bad.append("its kind is not that of the request")
                    lit = g("sat_idx")
                    if t == AND_T:
                        if not (isB(g("l.be")) and isB(g("r")) and I.match(s, val, And(g("l.be")[1], g("r")[1]))):
                            bad.append("its operands are not those of the request")
                        if not (isinstance(lit, tuple) and lit[0] == "satand" and {x[1] if isinstance(x, tuple) and x[0] == "lit" else None for x in lit[1:]} == {x[1] for x in ops}):
                            bad.append("its literal is not defined as the conjunction of the literals of its operands")
                    else:
                        if g("l.name") != ops[0]:
                            bad.append("its name is not that of the request")
                        if not (isinstance(lit, tuple) and lit[0] == "satvar"):
                            bad.append("its literal is not a new variable")
                    if s.get("entered") != (v, v):
                        bad.append("it is not entered in the table of unique nodes")
                    for b in bad:
                        self.rep(f, f.line, "node", "%s makes a node although %s (%s)" % (name, b, "conjunction" if t == AND_T else "variable"))
                self.finish(I, f, len(res))

    def uniq(self):
        """the table that is searched first by the function that makes nodes"""
        f = self.fn("be_find_insert")
        for e in all_exprs(f):
            if e[0] == "call" and callee(e) == "find_hash":
                a = strip(e[4][0])
                if a[0] == "un" and strip(a[4])[0] == "var" and "uniq" in strip(a[4])[3]:
                    return strip(a[4])[3]
        raise AnalysisBroken("the table of unique nodes was not found")

    def sameand(self, name="check_for_eq_with_SAT"):
        f = self.fn(name)
        pos, cases = self.signs(3)
        for ops in cases:
            I = self.engine(f, skip=(name,))
            I.positive = pos
            want = ("satsame",) + tuple(("lit", x[1]) for x in ops)

            def same(e, a, st):
                I.obl += 1
                if tuple(a) not in (want[1:], (want[2], want[1], want[3])):
                    self.rep(f, e[1], "literal", "the solver is not asked about the literals of the operands and the candidate")
                return [(0, st), (1, st.set("eq", 1)), (2, st), (-1, st)]
            I.contracts["SAT_and_is_same"] = same
            res = self.run(I, f, ops)
            for v, s in res:
                I.obl += 1
                if v not in (0, 1) or v and not s.get("eq"):
                    self.rep(f, f.line, "value", "a candidate is taken for equal without the answer of the solver")
            self.finish(I, f, len(res))

    def unsat(self, name="check_for_satisfaction_with_SAT"):
        f = self.fn(name)
        pos, cases = self.signs(1)
        for ops in cases:
            I = self.engine(f)
            I.positive = pos

            def model(e, a, st):
                I.obl += 1
                arr = I.norm(a[0])
                got = [st.get(("*", arr))] if a[1] == 1 else []
                if got != [("lit", ops[0][1])]:
                    self.rep(f, e[1], "literal", "the solver is not asked about the literal of the expression")
                return [(0, st.set("un", 1)), (-1, st.set("un", 1)), (1, st), (2, st)]
            I.contracts["Find_model"] = model
            res = self.run(I, f, ops)
            for v, s in res:
                I.obl += 1
                if v and not s.get("un"):
                    self.rep(f, f.line, "value", "an expression is taken for unsatisfiable without the answer of the solver")
            self.finish(I, f, len(res))

    # ---- functions on the leaves of a structure ----
    def leaf(self, fn, nargs, sp, pre, acc=None):
        """sp(leaf values..) is the leaf made, or what the static acc becomes"""
        f = self.P.funcs.get(fn)
        if f is None:
            raise AnalysisBroken("function %s was not found" % fn)
        I = self.engine(f, nargs=nargs)
        I.aname = "x"
        I.contracts["Is_equal"] = lambda e, a, st: [(B(T), st.set("iseq", 1)), (B(F), st.set("iseq", 0))]
        pre = dict(pre)
        if acc:
            pre[acc] = B(at("so far"))
        res = self.run(I, f, [("g", (i + 1,)) for i in range(nargs)], pre)
        vals = [at("x%d" % (i + 1)) for i in range(nargs)]
        for v, s in res:
            I.obl += 1
            isb = s.get(("is", "BEXPR", (1,)))
            if isb is None and nargs > 1:
                isb = s.get(("is", "BEXPR", (2,)))
            cond = facts_of(I, s)
            if acc:
                o = s.get(acc)
                want = sp(at("so far"), *vals) if isb else at("so far") if s.get("iseq") == 1 else F if s.get("iseq") == 0 else None
                if want is None:
                    self.rep(f, f.line, "leaf", "%s leaves the result as it is without comparing leaves that are not expressions" % f.short)
                elif not (isB(o) and I.match(s, want, o[1])):
                    self.rep(f, f.line, "leaf", "%s makes the result %s instead of %s for %s (when %s)" % (f.short, sh(o[1]) if isB(o) else o, sh(want), "expressions" if isb else "other leaves that are %s" % ("equal" if s.get("iseq") else "different"), cond))
                continue
            if not isb:
                if isinstance(v, tuple) and v[:2] == ("leaf", "PRIM") and s.get("iseq", 0) == 0:
                    continue
                if not (isinstance(v, tuple) and v[0] == "g" and v[1] in ((1,), (2,)) and (nargs == 1 or s.get("iseq") == 1)):
                    self.rep(f, f.line, "leaf", "%s does not keep leaves that are not expressions, or joins different ones" % f.short)
                continue
            want = sp(*vals)
            got = v[2] if isinstance(v, tuple) and v[0] == "leaf" and v[1] == "BEXPR" else B(at("x%d" % v[1][0])) if isinstance(v, tuple) and v[0] == "g" else None
            if not (isB(got) and I.match(s, want, got[1])):
                self.rep(f, f.line, "leaf", "%s makes %s instead of %s (when %s)" % (f.short, sh(got[1]) if isB(got) else "no expression", sh(want), cond))
        self.finish(I, f, len(res))

    def mapped(self, f, name, nargs, over, sp, fold=None, ite=False):
        """a built-in that maps a function over its arguments over, in order"""
        I = self.engine(f, nargs=nargs)
        pre = {}
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] in "gs":
                pre[strip(e[4])[3]] = B(at("left over"))
        res = self.run(I, f, [("g", ())], pre)
        leaves = set()
        anybad = False
        for v, s in res:
            I.obl += 1
            out = s.get("out")
            bad = None
            if out is None:
                bad = "no result is left in the redex"
            elif out[0] == "FAILS":
                continue
            elif ite and out[0] == "ARG":
                want = at("a1") if out[1] == 2 else Not(at("a1")) if out[1] == 3 else F
                if not I.valid(s, want):
                    bad = "argument %s is the result although the condition need not select it" % out[1]
            elif fold is not None:
                w = out[1] if out[0] == "BEXPR" else None
                m = s.get("map")
                if out[:1] == ("PRIM",) and m is None:
                    continue
                if not (isinstance(w, tuple) and w[0] == "fold" and m is not None and w[1] == m[1] and w[3] == B(fold)):
                    bad = "the result is not what was gathered over the leaves, starting at %s: %s" % (sh(fold), out)
                else:
                    leaves.add((m, w[2]))
            elif out[0] == "?" and isinstance(out[1], tuple) and out[1][0] == "map":
                leaves.add((out[1], None))
            else:
                bad = "the result is not a structure"
            if bad:
                anybad = True
                self.rep(f, f.line, "value", "%s: %s (when %s)" % (name, bad, facts_of(I, s)))
        self.finish(I, f, len(res))
        if not leaves and not anybad:
            raise AnalysisBroken("%s maps no function over its arguments" % name)
        for (_, fn, args, stat), acc in sorted(leaves, key=repr):
            if any(isinstance(a, tuple) and a[0] == "gf" for a in args):
                continue
            ks = [I.arg(a[1]) if isinstance(a, tuple) and a[0] == "g" else None for a in args]
            if ks != list(over):
                self.rep(f, f.line, "value", "%s: the structures that are walked are not its arguments %s in order" % (name, list(over)))
                continue
            self.leaf(fn, len(over), sp, dict(stat), acc)

    # ---- built-ins ----
    def builtin(self, f, nargs, want, name, **kw):
        """want(I, out, st) -> None or a description of what is wrong"""
        I = self.engine(f, nargs=nargs, **kw)
        res = self.run(I, f, [("g", ())])
        for v, s in res:
            I.obl += 1
            w = want(I, s.get("out"), s)
            if w:
                self.rep(f, f.line, "value", "%s: %s (when %s)" % (name, w, facts_of(I, s)))
        self.finish(I, f, len(res))


def val(kind, sp, fail=False):
    """the result is a leaf with the value sp(a1,..)"""
    def w(I, out, st):
        if out is None:
            return "no result is left in the redex"
        if out[0] == "FAILS":
            return None
        if out[0] == "FAILURE" and fail:
            return None
        if out[0] == "ARG" and out[1] is not None:
            out = (kind, B(at("a%d" % out[1])))
        if out[0] != kind:
            return "the result is a %s instead of a %s" % (out[0], kind)
        if not isB(out[1]):
            return "the result is not a Boolean value"
        x = sp(*[at("a%d" % (i + 1)) for i in range(I.nargs)])
        if not I.match(st, x, out[1][1]):
            return "the result is %s instead of %s" % (sh(out[1][1]), sh(x))
        return None
    return w


XNOR = lambda a, b: Not(Xor(a, b))
BUILTINS = {
    "T": ("BOOL", 0, lambda: T, 0), "F": ("BOOL", 0, lambda: F, 0), "NOT": ("BOOL", 1, Not, 0), "AND": ("BOOL", 2, And, 0), "OR": ("BOOL", 2, Or, 0),
    "XOR": ("BOOL", 2, Xor, 0), "XNOR": ("BOOL", 2, XNOR, 0), "limitedAND": ("BOOL", 3, lambda a, b, c: And(a, b), 1),
    "limitedOR": ("BOOL", 3, lambda a, b, c: Or(a, b), 1),
    "bT": ("BEXPR", 0, lambda: T, 0), "bF": ("BEXPR", 0, lambda: F, 0), "bNOT": ("BEXPR", 1, Not, 0), "bAND": ("BEXPR", 2, And, 0),
    "bOR": ("BEXPR", 2, Or, 0), "bXOR": ("BEXPR", 2, Xor, 0), "bXNOR": ("BEXPR", 2, XNOR, 0),
}

MAPPED = {
    "gen_bNOT": (1, (1,), Not, None, False), "gen_bAND": (2, (1, 2), And, None, False), "gen_bOR": (2, (1, 2), Or, None, False),
    "bITE": (3, (2, 3), lambda x, y: Ite(at("a1"), x, y), None, True),
    "bEqual": (2, (1, 2), lambda acc, x, y: And(acc, Not(Xor(x, y))), T, False),
}


def convert(R, f, name="be2bdd"):
    """a Boolean expression turned into a diagram, with and without substitutions;
    the statics are those the built-in f leaves at its call"""
    g = R.fn(name)
    I = R.engine(f, nargs=2)
    seen = set()

    def call(e, a, st):
        nil = st.get(("is", "NIL", ("L", "R")))
        stat = tuple(sorted(((k, v) for k, v in st.d.items() if isinstance(k, str) and "@" in k), key=repr))
        seen.add((nil, stat))
        I.obl += 1
        if a[0] != B(at("a2")):
            R.rep(f, e[1], "value", "bexpr2bdd converts something other than its second argument")
        return [(B(at("a2")), st)]
    I.contracts[name] = call
    c = I.contracts
    for n in ("create_hash", "new_buf", "free_buf", "dispose_hash", "POP_BDD_GC", "PUSH_BDD_GC"):
        c[n] = lambda e, a, st: [(None, st)]
    I.k_put = lambda e, a, st: [(None, st)]
    c["insert_hash"] = I.k_put
    res = R.run(I, f, [("g", ())])
    w = val("BOOL", lambda a, b: b)
    for v, s in res:
        I.obl += 1
        m = w(I, s.get("out"), s)
        if m:
            R.rep(f, f.line, "value", "base_bexpr2bdd: %s" % m)
    R.finish(I, f, len(res))
    if {n for n, _ in seen} != {0, 1}:
        raise AnalysisBroken("the entries to %s were not found" % name)
    for nil, stat in sorted(seen, key=repr):
        for be in (at("f1"), Not(at("f1")), T, F):
            def setup(J, f):
                J.positive = {at("f1")}
                J.memo_kind = "idx"
                J.env = "none" if nil else "subst"
                J.spec = (lambda e: e) if nil else J.Sb
                J.contracts[f.short] = J.selfcall(J.spec)
            R.value(name, [B(be)], lambda J, s: J.spec(be), setup=setup, pre=dict(stat))


def rewrites(R):
    for be in (at("f1"), Not(at("f1")), T, F):
        def setup(J, f):
            J.positive = {at("f1")}
            J.env, J.subkind, J.spec = "subst", "be", J.Sb
            J.contracts[f.short] = J.selfcall(J.spec)
        R.value("be_subst", [B(be)], lambda J, s: J.Sb(be), setup=setup)

        def setup(J, f):
            J.positive = {at("f1")}
            J.spec = lambda e: e
            J.contracts[f.short] = J.selfcall(J.spec)
        R.value("bdd2bexpr", [B(be)], lambda J, s: be, setup=setup, kind="bdd")


def conn(R):
    pos, cases = R.signs(3)
    for nm, (k, sp) in sorted(CONN.items()):
        pos, cases = R.signs(k)
        for ops in cases:
            def setup(J, f):
                J.positive = pos
            R.value(nm, ops, lambda I, s: sp(*[x[1] for x in ops]), setup=setup)


def substbuiltin(R, f):
    """bsubstitute: a function mapped over the second argument that substitutes in expressions"""
    I = R.engine(f, nargs=2)
    c = I.contracts
    for n in ("create_hash", "dispose_hash"):
        c[n] = lambda e, a, st: [(None, st)]
    c["insert_hash"] = lambda e, a, st: [(None, st)]
    c["find_hash"] = lambda e, a, st: [(0, st), (("subval", "?"), st)]
    res = R.run(I, f, [("g", ())])
    fns = set()
    for v, s in res:
        I.obl += 1
        o = s.get("out")
        if o is not None and o[0] in ("FAILURE", "FAILS"):
            continue
        if o is not None and o[0] == "?" and isinstance(o[1], tuple) and o[1][0] == "map" and len(o[1][2]) == 1 and \
                isinstance(o[1][2][0], tuple) and I.arg(o[1][2][0][1]) == 2:
            fns.add(o[1][1])
        else:
            R.rep(f, f.line, "value", "bsubstitute does not return its second argument with expressions replaced")
    R.finish(I, f, len(res))
    for fn in fns:
        g = R.P.funcs[fn]
        J = R.engine(g, nargs=1)
        J.aname = "x"
        J.contracts["be_subst"] = lambda e, a, st: [(B(J.Sb(a[0][1])) if isB(a[0]) else None, st)]
        for v, s in R.run(J, g, [("g", (1,))]):
            J.obl += 1
            if s.get(("is", "BEXPR", (1,))):
                ok = v == ("leaf", "BEXPR", B(("Sb", at("x1"))))
            else:
                ok = v == ("g", (1,))
            if not ok:
                R.rep(g, g.line, "leaf", "%s does not replace an expression by the one with the substitutions made, or does not keep another leaf" % g.short)
        R.finish(J, g, 1)
