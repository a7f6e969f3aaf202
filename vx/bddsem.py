"""Decision diagrams: what each function returns, on every path."""
from .boolsem import *

OPS = {1: And, 2: Or, 3: Xor}
UNIV, EXIST, DEP = 4, 5, 6


def at(n):
    return ("at", n)


class Bdd(Bool):
    def __init__(self, P, f, report):
        super().__init__(P, report)
        self.f = f
        self.consts = {"ONE": B(T), "ZERO": B(F), "B_TRUE": B(T), "B_FALSE": B(F)}
        c = self.contracts
        c["bdd_step"] = self.k_step
        c["find_insert_bdd"] = self.k_insert
        c["quantify"] = self.k_quant
        c["Rel_prod"] = self.k_rel
        c["b_substitute"] = self.k_subst
        c["B_Depends"] = self.k_dep
        c["find_hash"] = self.k_find
        c["insert_hash"] = self.k_put
        c["find_in_relprod_cache"] = self.k_relslot
        for n in ("get_new_cache_rec", "new_rec"):
            c[n] = lambda e, a, st: [(("rec", "new%d" % e[1]), st)]
        for n in ("inc_ref_cnt", "Bdec_ref_cnt", "grow_uniq_tbl", "grow_MainTbl"):
            c[n] = lambda e, a, st, n=n: [(None, self.effect(n, e, a, st))]
        c["uniq_hash_fn"] = lambda e, a, st: [(("hash",) + tuple(a[:2]), st)]
        c["delete_hash"] = lambda e, a, st: [(None, st)]
        # what a caller relies on: the functions with a specification of their own
        for n, (k, sp) in CONNECTIVES.items():
            c[n] = lambda e, a, st, sp=sp, n=n: [(B(sp(*[x[1] for x in a])) if all(isB(x) for x in a) else None, st)]
        c.pop(f.short, None) if f.short not in ("bdd_step", "quantify", "Rel_prod", "b_substitute", "B_Depends") else None

    def effect(self, n, e, a, st):
        if n == "inc_ref_cnt" and isB(a[0]):
            return st.set(("inc", a[0]), st.get(("inc", a[0]), 0) + 1)
        return st

    # ---- records of nodes ----
    def loadfield(self, v, f, st, e):
        if v[0] == "node":
            if f == "lson":
                return B(("h", v[1]))
            if f == "rson":
                return B(("l", v[1]))
            if f == "var":
                return ("var", v[1])
            if f == "next":
                return B(at("chain"))
            return None
        if v[0] == "vp":
            if f == "variable":
                return ("ord", v[1])
            return ("vpf", v[1], f)
        if v[0] == "crec":
            if f in ("res", "result"):
                return self.interp(v[1], dict(v[2]), st, e, "lookup")
            return dict(v[2]).get(f)
        if v[0] == "slot":
            if f == "result":
                d = {k: st.get((v, k)) for k in ("v", "a", "b")}
                d = {k: (x if x is not None else B(("slot", k))) for k, x in d.items()}
                return B(("R", "key", d["v"][1], d["a"][1], d["b"][1])) if all(isB(x) for x in d.values()) else None
            return B(("slot", f))
        if v[0] == "subs":
            if f == "next":
                return ("subs", v[1] + 1)
            if f == "var":
                return B(at("sv%d" % v[1]))
            if f == "expr":
                return B(at("se%d" % v[1]))
        return None

    def deref(self, v, st, e):
        if v[0] == "hslot":
            return B(at("chain"))
        return Bool.deref(self, v, st, e)

    def h_bin(self, op, a, b, st):
        if op == "+" and isinstance(a, tuple) and a[0] == "vpf" and isinstance(b, tuple) and b[0] == "hash":
            return ("hslot", a, b)
        if op in ("==", "!=") and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "var" and b[0] == "var" and a[1] == b[1]:
            return int(op == "==")
        if op in ("==", "!=") and isinstance(a, tuple) and a[0] == "subs" and b == 0:
            n = st.get("subs_null")
            return None if n is None or a[1] != 0 else int((op == "==") == bool(n))
        return super().h_bin(op, a, b, st)

    def truth(self, v):
        if isinstance(v, tuple) and v and v[0] == "subs":
            return None
        return super().truth(v)

    def rel(self, op, a, b, st):
        if isinstance(a, tuple) and a[0] == "subs" and b == 0 and a[1] == 0:
            return st.set("subs_null", int(op == "=="))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "var" and b[0] == "var" and op == "==":
            return self.setord(st, a[1], b[1], frozenset("="))
        r = super().rel(op, a, b, st)
        if isB(a) and isB(b) and op == "==":
            x, y = a, b
            for x, y in ((a, b), (b, a)):
                if x[1][0] == "slot" and r is not None:
                    r = r.set(("slotis", x[1][1]), y)
        return r

    # ---- contracts ----
    def need(self, ok, e, msg):
        self.obl += 1
        if not ok:
            self.report(e[1], "requires", msg)

    def k_step(self, e, a, st):
        fn = a[0]
        self.need(fn in OPS, e, "bdd_step is called with an operation other than AND, OR and XOR")
        if fn not in OPS or not (isB(a[1]) and isB(a[2])):
            return [(None, st)]
        return [(B(OPS[fn](a[1][1], a[2][1])), st)]

    def k_insert(self, e, a, st):
        vp, l, r = a
        if not (isinstance(vp, tuple) and vp[0] == "vp" and isB(l) and isB(r)):
            return [(None, st)]
        for x in (l, r):
            self.need(self.below(x[1], vp[1], st), e, "a node of variable %s gets a son that need not be below it in the variable order" % self.sh(vp[1]))
        return [(B(Ite(("v", vp[1]), l[1], r[1])), st)]

    def k_quant(self, e, a, st):
        f, S, ty = a
        self.need(ty in (UNIV, EXIST), e, "quantify is called with a kind that is neither UNIVERSAL nor EXISTENTIAL (%s)" % (ty,))
        if not (isB(f) and isB(S)):
            return [(None, st)]
        return [(B(self.Q(ty if ty in (UNIV, EXIST) else "?", S[1], f[1])), st)]

    def Q(self, ty, S, f):
        return ("Q", ty, base(S), f) if f not in (T, F) else f

    def k_rel(self, e, a, st):
        S, x, y, ex = a
        if isB(S) and isB(x) and isB(y):
            return [(B(("R", ex, base(S[1])) + tuple(sorted((x[1], y[1]), key=repr))), st)]
        return [(None, st)]

    def k_subst(self, e, a, st):
        if isB(a[0]) and isinstance(a[1], tuple) and a[1][0] == "subs":
            return [(B(self.Sb(a[1][1], a[0][1])), st)]
        return [(None, st)]

    def Sb(self, k, e):
        if e in (T, F):
            return e
        if e[0] == "n":
            return Not(self.Sb(k, e[1]))
        return ("Sb", k, e)

    def k_dep(self, e, a, st):
        if not isB(a[0]):
            return [(None, st)]
        return [(B(self.D(a[0][1])), st)]

    def D(self, e):
        return T if e in (T, F) else ("D", base(e))

    # ---- caches ----
    def fields(self, st, o):
        return {k[1]: st.get(k) for k in st.d if isinstance(k, tuple) and k[0] == o and isinstance(k[1], str)}

    def tbl(self, v):
        return v[1].split("@")[0] if isinstance(v, tuple) and v[0] in ("addr", "glob", "rec") else "?"

    def k_find(self, e, a, st):
        o = self.norm(a[1])
        if isinstance(o, tuple) and o[0] == "rec":
            fs = self.fields(st, o)
            return [(0, st), (("crec", self.tbl(a[0]), tuple(sorted(fs.items(), key=repr))), st)]
        return [(None, st)]

    def k_relslot(self, e, a, st):
        return [(("slot",), st)]

    def interp(self, tbl, d, st, e, what):
        """the function a cache record stands for"""
        fn, l, r = d.get("fn"), d.get("u.args.lson"), d.get("u.args.rson")
        if "f" in d and "subs" in d:
            if isB(d["f"]) and isinstance(d["subs"], tuple):
                return B(self.Sb(d["subs"][1], d["f"][1]))
            return None
        if fn is None or not isB(l) or not isB(r):
            self.report(e[1], "cachekey", "%s with a key that is not completely set" % what)
            return None
        if fn in OPS:
            return B(OPS[fn](l[1], r[1]))
        if fn in (UNIV, EXIST):
            return B(self.Q(fn, r[1], l[1]))
        if fn == DEP:
            return B(self.D(l[1]))
        self.report(e[1], "cachekey", "%s under an unknown operation code %s" % (what, fn))
        return None

    def k_put(self, e, a, st):
        o = self.norm(a[1])
        if isinstance(o, tuple) and o[0] == "rec":
            self.obl += 1
            d = self.fields(st, o)
            res = d.get("res") or d.get("result")
            want = self.interp(self.tbl(a[0]), d, st, e, "insertion")
            if want is not None:
                if not isB(res):
                    self.report(e[1], "cache", "a record is entered in the cache without its result")
                elif not self.match(st, want[1], res[1]):
                    self.report(e[1], "cache", "the result entered in the cache is not that of the operation and operands it is entered under")
            if a[1] != a[2]:
                self.report(e[1], "cache", "a cache entry maps to another record")
        return [(None, st)]

    # ---- levels ----
    def below(self, e, v, st):
        """every variable of e comes after v in the order"""
        if e in (T, F):
            return True
        k = e[0]
        if k in ("n", "a", "x", "i"):
            return all(self.below(x, v, st) for x in e[1:])
        if k == "v":
            return self.ordrel(st, e[1], v) == frozenset(">")
        if self.valid(st, e) or self.valid(st, Not(e)):
            return True
        if self.ordrel(st, e, v) == frozenset(">"):
            return True
        if k == "Q":
            return self.below(e[3], v, st)
        if k == "R":
            return self.below(e[3], v, st) and self.below(e[4], v, st)
        if k == "D":
            return self.below(e[1], v, st)
        return False

    def sh(self, e):
        if isinstance(e, tuple) and e[0] == "at":
            return str(e[1])
        if isinstance(e, tuple) and e[0] in ("h", "l"):
            return "%s of %s" % ({"h": "left son", "l": "right son"}[e[0]], self.sh(e[1]))
        return str(e)

    # ---- specifications ----
    def cof(self, st, f, side):
        """a cofactor at the node's own variable, if its sign is settled"""
        g = base(f)
        s = self.sign(f)
        c = (side, g)
        if self.valid(st, s):
            return Not(c)
        if self.valid(st, Not(s)):
            return c
        return None

    def const(self, st, e):
        return self.valid(st, e) or self.valid(st, Not(e))

    def laws(self, st, e):
        """expressions equal to the atom e by the defining laws, under the facts"""
        out = [e]
        if e in (T, F) or e[0] == "n":
            return out
        if e[0] == "Q":
            ty, S, f = e[1:]
            if self.const(st, S) or self.const(st, f):
                return [f]
            r = self.ordrel(st, f, S)
            h, l = self.cof(st, f, "h"), self.cof(st, f, "l")
            if r == frozenset(">"):
                out.append(self.Q(ty, ("h", S), f))
            elif h is not None and r == frozenset("<"):
                out.append(Ite(("v", base(f)), self.Q(ty, S, h), self.Q(ty, S, l)))
            elif h is not None and r == frozenset("="):
                op = And if ty == UNIV else Or
                out.append(op(self.Q(ty, ("h", S), h), self.Q(ty, ("h", S), l)))
        elif e[0] == "R":
            ex, S, a, b = e[1:]
            ty = EXIST if ex in (1, True) else UNIV
            if self.valid(st, Not(a)) or self.valid(st, Not(b)) or self.valid(st, Xor(a, b)):
                return [F]
            if self.valid(st, a) or self.same(st, a, b):
                out.append(self.Q(ty, S, b))
            if self.valid(st, b) or self.same(st, a, b):
                out.append(self.Q(ty, S, a))
            if self.const(st, S):
                out.append(And(a, b))
                return out
            rab = self.ordrel(st, a, b)
            m = None
            if rab <= frozenset("<="):
                m = a
            elif rab <= frozenset(">="):
                m = b
            if m is not None:
                if rab == frozenset("<="):
                    return out
                ah, al = (self.cof(st, a, "h"), self.cof(st, a, "l")) if rab in (frozenset("<"), frozenset("=")) else (a, a)
                bh, bl = (self.cof(st, b, "h"), self.cof(st, b, "l")) if rab in (frozenset(">"), frozenset("=")) else (b, b)
                rs = self.ordrel(st, S, m)
                R = lambda S, x, y: ("R", ex, base(S)) + tuple(sorted((x, y), key=repr))
                if rs == frozenset("<"):
                    out.append(R(("h", S), a, b))
                elif None not in (ah, bh):
                    if rs == frozenset(">"):
                        out.append(Ite(("v", base(m)), R(S, ah, bh), R(S, al, bl)))
                    elif rs == frozenset("="):
                        op = Or if ty == EXIST else And
                        out.append(op(R(("h", S), ah, bh), R(("h", S), al, bl)))
        elif e[0] == "Sb":
            k, f = e[1:]
            if k == 0 and st.get("subs_null"):
                return [f]
            if self.const(st, f):
                return [f]
            sv = at("sv%d" % k)
            r = self.ordrel(st, f, sv)
            h, l = self.cof(st, f, "h"), self.cof(st, f, "l")
            if r == frozenset(">"):
                out.append(self.Sb(k + 1, f))
            elif h is not None and r == frozenset("<"):
                out.append(Ite(("v", f), self.Sb(k, h), self.Sb(k, l)))
            elif h is not None and r == frozenset("="):
                out.append(Ite(at("se%d" % k), self.Sb(k + 1, h), self.Sb(k + 1, l)))
        elif e[0] == "D":
            if self.const(st, e[1]):
                return [T]
            out.append(And(And(self.D(("h", e[1])), self.D(("l", e[1]))), ("v", e[1])))
        return out

    def match(self, st, want, got):
        if want != T and want != F and want[0] == "n":
            return self.match(st, want[1], Not(got))
        # the value a slot of the relational-product cache holds, once its key was compared
        got = self.slots(st, got)
        return any(self.same(st, w, got) for w in self.laws(st, want))

    def slots(self, st, e):
        if e in (T, F):
            return e
        if e[0] in ("n", "a", "x", "i"):
            return (e[0],) + tuple(self.slots(st, x) for x in e[1:])
        if e[0] == "R" and e[1] == "key":
            d = []
            for k, x in zip(("v", "a", "b"), e[2:]):
                if x == ("slot", k):
                    y = st.get(("slotis", k))
                    if y is None:
                        return e
                    x = y[1]
                d.append(x)
            return ("R", st.get("ex"), base(d[0])) + tuple(sorted(d[1:], key=repr))
        return e

    def show_facts(self, st):
        fs = ["%s" % self.sh2(c) for c in sorted(self.cons(st), key=repr)]
        for k in st.d:
            if isinstance(k, tuple) and k[0] == "ord":
                fs.append("var(%s) %s var(%s)" % (self.sh2(k[1]), "/".join(sorted(st.get(k))), self.sh2(k[2])))
        return ", ".join(fs) or "no condition"

    def sh2(self, e):
        if e in (T, F):
            return "1" if e == T else "0"
        k = e[0]
        if k == "n":
            return "!" + self.sh2(e[1])
        if k == "a":
            return "(%s & %s)" % (self.sh2(e[1]), self.sh2(e[2]))
        if k == "x":
            return "(%s ^ %s)" % (self.sh2(e[1]), self.sh2(e[2]))
        if k == "i":
            return "(%s ? %s : %s)" % tuple(self.sh2(x) for x in e[1:])
        if k == "at":
            return str(e[1])
        if k in ("h", "l", "v", "s"):
            return "%s(%s)" % ({"h": "lson", "l": "rson", "v": "var", "s": "sign"}[k], self.sh2(e[1]))
        return "%s(%s)" % (k, ",".join(self.sh2(x) if isinstance(x, tuple) or x in (T, F) else str(x) for x in e[1:]))


CONNECTIVES = {
    "B_One": (0, lambda: T), "B_Zero": (0, lambda: F),
    "B_Not": (1, Not), "B_And": (2, And), "B_Or": (2, Or), "B_Xor": (2, Xor),
    "B_Nand": (2, lambda a, b: Not(And(a, b))), "B_Nor": (2, lambda a, b: Not(Or(a, b))), "B_Xnor": (2, lambda a, b: Not(Xor(a, b))),
    "B_Ite": (3, Ite),
}


def analyse(P, name, args, want, report, out=None, pre=None):
    """run function name on args; every returned value must match want(I, st)"""
    fs = [f for f in P.funcs.values() if f.short == name and f.file == "new_bdd.c"] or [f for f in P.funcs.values() if f.short == name]
    if not fs:
        raise AnalysisBroken("function %s was not found" % name)
    f = fs[0]
    I = Bdd(P, f, lambda line, rule, msg: report(f, line, rule, msg))
    d = {p[0]: v for p, v in zip(f.params, args) if v is not None}
    if pre:
        d.update(pre)
    I.rets = []
    I.h_ret = lambda g, n, v, s: I.rets.append(n.line) if g is f else None
    exits = []
    I.stopped = []
    res = I.run(f, St(d))
    n = 0
    for v, s in res:
        if not I.sat(s):
            continue
        n += 1
        I.obl += 1
        if out:
            v = s.get(("*", out))
        if not isB(v):
            report(f, f.line, "value", "%s returns something that is not a diagram (when %s)" % (name, I.show_facts(s)))
            continue
        w = want(I, s)
        if w is not None and not I.match(s, w, v[1]):
            report(f, f.line, "value", "%s returns %s instead of %s when %s" % (name, I.sh2(v[1]), " or ".join(I.sh2(x) for x in I.laws(s, w)), I.show_facts(s)))
        # a slot of the cache that was filled
        w2 = [k for k in s.d if isinstance(k, tuple) and k[0] == ("slot",)]
        if w2:
            I.obl += 1
            dd = {k[1]: s.get(k) for k in w2}
            if not all(isB(dd.get(k)) for k in ("v", "a", "b", "result")) or w is None or \
                    ("R", s.get("ex"), base(dd["v"][1])) + tuple(sorted((dd["a"][1], dd["b"][1]), key=repr)) != w or not I.same(s, dd["result"][1], v[1]):
                report(f, f.line, "cache", "the result entered in the relational-product cache is not that of the operands it is entered under")
    if n == 0:
        raise AnalysisBroken("no returning path of %s" % name)
    return I, n


def run_all(P, report):
    """(function, number of paths, obligations)"""
    a, b, c, S = B(at("f1")), B(at("f2")), B(at("f3")), B(at("vf"))
    e = lambda v: v[1]
    done = []

    def go(name, args, want, **kw):
        I, n = analyse(P, name, args, want, report, **kw)
        done.append((name, n, I.obl))
    for fn in (1, 2, 3):
        go("bdd_step", [fn, a, b], lambda I, s: OPS[fn](e(a), e(b)))
    for nm, (k, sp) in CONNECTIVES.items():
        go(nm, [a, b, c][:k], lambda I, s: sp(*[e(x) for x in (a, b, c)[:k]]))
    for nm, sp in (("F_not", lambda: Not(e(a))), ("F_and", lambda: And(e(a), e(b))), ("F_or", lambda: Or(e(a), e(b)))):
        go(nm, [a, b, ("param", "res")], lambda I, s: sp(), out=("param", "res"))
    for ty in (UNIV, EXIST):
        go("quantify", [a, S, ty], lambda I, s: I.Q(ty, e(S), e(a)))
    go("B_forall", [S, a], lambda I, s: I.Q(UNIV, e(S), e(a)))
    go("B_thereis", [S, a], lambda I, s: I.Q(EXIST, e(S), e(a)))
    for ex in (0, 1):
        go("Rel_prod", [S, a, b, ex], lambda I, s: ("R", ex, e(S)) + tuple(sorted((e(a), e(b)), key=repr)), pre={"ex": ex})
    go("b_substitute", [a, ("subs", 0)], lambda I, s: I.Sb(0, e(a)))
    go("B_Depends", [a], lambda I, s: I.D(e(a)))
    return done


class Nodes(Graph, Bdd):
    """the functions that make and rearrange nodes"""
    INLINE = 60
    nm = {}

    def __init__(self, P, f, report, nargs=1):
        Bdd.__init__(self, P, f, report)
        c = self.contracts
        self.graph_contracts(nargs)
        c["wastrsave"] = lambda e, a, st: [(a[1], st)]
        c["Make_STRING_leaf"] = lambda e, a, st: [(("leaf", "STRING", a[0]), st)]
        c["Make_CONS_ND"] = lambda e, a, st: [(("leaf", "CONS", a[0], a[1]), st)]
        c["VX_MK_CONS_ND"] = lambda e, a, st: [(None, self.out(st, a[0], ("CONS", a[1], a[2])))]

    def h_load(self, e, st):
        if e[0] == "var" and e[3].split("@")[0] == "b_free_list":
            return B(at("fresh")), st
        return super().h_load(e, st)

    def axiom(self, f, st=None):
        if f == at("chain") or f[0] == "chained":
            # a node found in the table of a variable
            return Not(Xor(f, Ite(("v", at("x")), ("h", f), ("l", f))))
        return super().axiom(f, st)

    def sign(self, e):
        if e in (("at", "fresh"), ("at", "chain"), ("at", "node")) or isinstance(e, tuple) and e[0] in ("h", "chained"):
            return F      # node numbers, and left sons, are not complemented
        return super().sign(e)

    def loadfield(self, v, f, st, e):
        if v[0] == "vp" and f == "var_name":
            return ("name", v[1])
        if v[0] == "node" and f == "var" and v[1] == at("node"):
            return ("var", v[1])
        return super().loadfield(v, f, st, e)

    def h_bin(self, op, a, b, st):
        if op == "&" and isB(a) and isinstance(b, int) and (b & 0xffffffff) not in self.MASKS and a[1] not in (T, F) and self.sign(base(a[1])) == F:
            return B(base(a[1]))
        if op == "+" and isinstance(a, tuple) and a[0] == "vpf" and (isinstance(b, int) or b is None):
            return ("slotno", a, 0)
        if op == "+" and isinstance(a, tuple) and isB(b) and a[0] == "glob":
            return ("node", base(b[1]))
        return super().h_bin(op, a, b, st)

    def deref(self, v, st, e):
        r = st.get(("*", v))
        if r is not None:
            return r
        if v[0] == "slotno":
            return B(at("node"))
        if v[0] == "hslot":
            return B(("chained", v))
        return super().deref(v, st, e)


def find_insert(P, report):
    """the node a variable and two sons get"""
    f = [g for g in P.funcs.values() if g.short == "find_insert_bdd"]
    if not f:
        raise AnalysisBroken("function find_insert_bdd was not found")
    f = f[0]
    a, b = at("f1"), at("f2")
    obl = paths = 0
    made = 0
    for x, y in ((a, b), (Not(a), b), (a, Not(b)), (Not(a), Not(b)), (a, a), (Not(a), Not(a))):
        I = Nodes(P, f, lambda line, rule, msg: report(f, line, rule, msg))
        I.contracts.pop("find_insert_bdd", None)
        I.signpos = (a, b)
        sg = I.sign
        I.sign = lambda e, sg=sg: F if e in (a, b) else (Not(F) if e in (Not(a), Not(b)) else sg(e))
        V = ("v", at("x"))
        want = Ite(V, x, y)
        d = {p[0]: v for p, v in zip(f.params, [("vp", at("x")), B(x), B(y)])}
        I.stopped = []
        for v, s in I.run(f, St(d)):
            if not I.sat(s):
                continue
            paths += 1
            obl += 1
            if not isB(v):
                report(f, f.line, "value", "find_insert_bdd returns something that is not a diagram")
                continue
            n = ("node", at("fresh"))
            if base(v[1]) == at("fresh"):
                made += 1
                l, r, var = s.get((n, "lson")), s.get((n, "rson")), s.get((n, "var"))
                if var is None:
                    var = s.get(("setvar",))
                bad = []
                if x == y:
                    bad.append("both sons are the same")
                if not (isB(l) and isB(r)):
                    bad.append("its sons are not set")
                else:
                    val = Ite(V, l[1], r[1])
                    if not I.same(s, want, val if v[1] == at("fresh") else Not(val)):
                        bad.append("with sons %s and %s it does not stand for the function asked for" % (I.sh2(l[1]), I.sh2(r[1])))
                    if not I.valid(s, Not(I.sign(l[1]))):
                        bad.append("its left son may be complemented, so that a function has two diagrams")
                    if s.get(("inc", l)) != 1 or s.get(("inc", r)) != 1:
                        bad.append("the references to its sons are not counted")
                    slot = ("hslot", ("vpf", at("x"), "uniq_tbl"), ("hash", l, r))
                    if s.get(("*", slot)) != B(at("fresh")):
                        bad.append("it is not entered in the table of its variable under its sons")
                    if s.get((n, "next")) != B(("chained", slot)):
                        bad.append("the nodes in the same place of the table are lost")
                if var != ("var", at("x")):
                    bad.append("its variable is not the one asked for")
                for m in bad:
                    report(f, f.line, "node", "find_insert_bdd makes a node although %s" % m)
            elif not I.same(s, want, v[1]):
                report(f, f.line, "value", "find_insert_bdd returns %s for a node with sons %s and %s (when %s)" % (I.sh2(v[1]), I.sh2(x), I.sh2(y), I.show_facts(s)))
        obl += I.obl
    if not made:
        raise AnalysisBroken("find_insert_bdd makes no node")
    return paths, obl


def cofactors(P, report):
    """the function that takes a diagram apart at its top variable"""
    f = [g for g in P.funcs.values() if g.short == "Get_top_cofactor"]
    if not f:
        raise AnalysisBroken("function Get_top_cofactor was not found")
    f = f[0]
    n = obl = 0
    for x in (at("f1"), Not(at("f1"))):
        I = Nodes(P, f, lambda line, rule, msg: report(f, line, rule, msg))
        d = {p[0]: v for p, v in zip(f.params, [B(x), ("param", "name"), ("param", "H"), ("param", "L")])}
        I.stopped = []
        for v, s in I.run(f, St(d)):
            if not I.sat(s):
                continue
            n += 1
            obl += 1
            H, L, nm = (s.get(("*", ("param", k))) for k in ("H", "L", "name"))
            if not (isB(H) and isB(L)) or not I.same(s, x, Ite(("v", at("f1")), H[1], L[1])):
                report(f, f.line, "value", "Get_top_cofactor: the diagram is not the choice between the cofactors it gives (when %s)" % I.show_facts(s))
            if not (isinstance(nm, tuple) and nm[0] == "name" and nm[1] == at("f1")):
                report(f, f.line, "value", "Get_top_cofactor: the variable it gives is not that of the diagram")
    return n, obl


def top_cofactor(P, f, report):
    I = Nodes(P, f, lambda line, rule, msg: report(f, line, rule, msg))
    I.stopped = []
    n = 0
    for v, s in I.run(f, St({f.params[0][0]: ("g", ())})):
        if not I.sat(s):
            continue
        n += 1
        o = s.get("out")
        a1 = at("a1")
        if o is not None and o[0] == "FAILURE":
            if not I.const(s, a1):
                report(f, f.line, "value", "top_cofactor fails for a diagram that is not constant")
            continue
        try:
            assert o[0] == "CONS" and o[1][:2] == ("leaf", "STRING") and o[2][:2] == ("leaf", "CONS")
            nm, h, l = o[1][2], o[2][2], o[2][3]
            assert h[:2] == l[:2] == ("leaf", "BOOL")
            ok = nm == ("name", a1) and I.same(s, a1, Ite(("v", a1), h[2][1], l[2][1]))
        except (AssertionError, TypeError, IndexError):
            report(f, f.line, "value", "top_cofactor does not return a variable and two cofactors")
            continue
        if not ok:
            report(f, f.line, "value", "top_cofactor: the diagram is not the choice, by the variable given, between the cofactors given (when %s)" % I.show_facts(s))
    return n, I.obl + n


class Swap(Nodes):
    """two neighbouring variables x and y change places: x gets below y"""

    def __init__(self, P, f, report):
        super().__init__(P, f, report)
        c = self.contracts
        c["find_insert_bdd"] = self.k_new
        c["Bdec_ref_cnt"] = self.k_dec
        c["M_LOCATE_BUF"] = None
        c.pop("M_LOCATE_BUF")
        self.checked = 0
        self.kept = 0

    def h_load(self, e, st):
        # *((int *) M_LOCATE_BUF(tbl, pos)): the variable at a position
        if e[0] == "un" and e[3] == "*":
            x = strip(e[4])
            if any(y[0] == "mem" and len(y) > 6 and y[6] == "buffer" for y in walk(x)) or x[0] == "call":
                plus = any(y[0] == "bin" and y[3] == "+" and strip(y[5])[0] == "int" and strip(y[5])[3] == 1 for y in walk(x))
                return ("var", at("y" if plus else "x")), st
        return super().h_load(e, st)

    def axiom(self, f, st=None):
        if f == at("node"):
            return Not(Xor(f, Ite(("v", at("x")), ("h", f), ("l", f))))
        return super().axiom(f, st)

    def sign(self, e):
        if e == at("new"):
            return F
        return super().sign(e)

    def k_new(self, e, a, st):
        vp, l, r = a
        if not (isB(l) and isB(r)):
            return [(None, st)]
        self.need(vp == ("vp", at("x")), e, "the nodes below the variable that moves up are not made for the variable that moves down")
        for z in (l[1], r[1]):
            rel = self.ordrel(st, z, at("y"))
            self.need(self.const(st, z) or z[0] in "hn" and base(z)[0] in ("h", "l") and base(z)[1] != at("node") or st.get(("noty", base(z))) or rel == frozenset(">"), e,
                      "a node of the variable that moves down gets a son that may be of the variable that moves up")
        v = Ite(("v", at("x")), l[1], r[1])
        return [(B(v), st)]

    def rel(self, op, a, b, st):
        if op == "!=" and isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("var",):
            x = a[1] if b[1] == at("y") else b[1]
            return st.set(("noty", base(x)), 1)
        if op == "==" and isinstance(a, tuple) and a[0] == "pos" and b == 0:
            r = super().rel(op, a, b, st)
            return [s.set(("noty", base(a[1])), 1) for s in (r if isinstance(r, list) else [r]) if s is not None]
        return super().rel(op, a, b, st)

    def arith(self, op, a, b, st):
        if isinstance(a, int) and isinstance(b, int) and op in "+-":
            return None         # counters
        return super().arith(op, a, b, st)

    NX = ("next", at("node"))

    def loadfield(self, v, f, st, e):
        if v[0] == "node" and f == "next":
            return B(self.NX if v[1] == at("node") else at("other"))
        return super().loadfield(v, f, st, e)

    def storefield(self, e, o, f, v, st):
        if o[0] in ("vp", "vpf") or o[0] == "node" and o[1] != at("node"):
            return st
        return super().storefield(e, o, f, v, st)

    def deref(self, v, st, e):
        if v[0] in ("slotno", "slot?"):
            return B(at("other")) if st.get("checked") else B(at("node"))
        return super().deref(v, st, e)

    def storederef(self, e, o, v, st):
        if o[0] in ("slotno", "slot?"):
            return st
        return super().storederef(e, o, v, st)

    def h_store(self, e, l, v, st):
        if l[0] == "var":
            if v == B(at("node")) and not st.get("checked"):
                return st.set("seen", None)
            if v == B(self.NX):
                if not st.get("seen"):
                    return st.set("seen", 1)
                return self.iteration(e, st).set("stop", 1)
            return st
        return super().h_store(e, l, v, st)

    def iteration(self, e, st):
        """all that was done to one node"""
        n = ("node", at("node"))
        l, r = st.get((n, "lson")), st.get((n, "rson"))
        if l is None and r is None:
            if st.get((n, "moving")) != 0:
                return st       # not a node that was there before
            self.kept += 1
            a, b = ("h", at("node")), ("l", at("node"))
            for x in (a, b):
                self.obl += 1
                if not (st.get(("noty", x)) or self.const(st, x) or self.ordrel(st, x, at("y")) <= frozenset("<>")):
                    self.report(e[1], "node", "a node is left where it is although a son may be of the variable that moves up (when %s)" % self.show_facts(st))
            return st
        if not (isB(l) and isB(r)):
            return st
        slot = ("hslot", ("vpf", at("y"), "uniq_tbl"), ("hash", l, r))
        for ok, m in ((st.get(("*", slot)) == B(at("node")), "a node that is moved is not entered under its new sons in the table of the variable that moves up"),
                      (st.get((n, "next")) == B(("chained", slot)), "entering a node that is moved loses the nodes in the same place of the table"),
                      (st.get(("inc", l)) and st.get(("inc", r)), "the references from a node that is moved to its new sons are not counted"),
                      (st.get(("dec", B(("h", at("node"))))) and st.get(("dec", B(("l", at("node"))))), "the references from a node that is moved to its old sons are not released")):
            self.obl += 1
            if not ok:
                self.report(e[1], "node", m)
        return st

    def k_dec(self, e, a, st):
        n = ("node", at("node"))
        l, r = st.get((n, "lson")), st.get((n, "rson"))
        if l is not None and r is not None:
            self.need(st.get(("inc", l)) and st.get(("inc", r)), e, "the old sons are released before the new ones are counted, so that nodes both refer to are lost")
        return [(None, st.set(("dec", a[0]), 1))]

    def h_node(self, f, n, st):
        if st.get("stop"):
            return None
        nd = ("node", at("node"))
        l, r, v = st.get((nd, "lson")), st.get((nd, "rson")), st.get((nd, "var"))
        if v is None:
            v = st.get(("setvar",))
        if (l, r, v) == (None, None, None):
            return st
        if st.get("checked") or not (l and r and v):
            return st
        self.checked += 1
        self.obl += 1
        want = Ite(("v", at("x")), ("h", at("node")), ("l", at("node")))
        if v != ("var", at("y")):
            self.report(n.line, "node", "a node that is moved does not become one of the variable that moves up")
        if not (isB(l) and isB(r)) or not self.same(st, want, Ite(("v", at("y")), l[1], r[1])):
            self.report(n.line, "value", "a node stands for another function after the exchange: sons %s and %s (when %s)" % (self.sh2(l[1]) if isB(l) else l, self.sh2(r[1]) if isB(r) else r, self.show_facts(st)))
        return st.set("checked", 1)


def swap(P, report):
    f = [g for g in P.funcs.values() if g.short == "swap_down"]
    if not f:
        raise AnalysisBroken("function swap_down was not found")
    f = f[0]
    I = Swap(P, f, lambda line, rule, msg: report(f, line, rule, msg))
    I.stopped = []
    res = I.run(f, St({f.params[0][0]: ("param", "tbl"), f.params[1][0]: ("pos0",)}))
    n = 0
    for v, s in res:
        nd = ("node", at("node"))
        got = [s.get((nd, k)) is not None for k in ("lson", "rson")]
        n += 1
        if any(got) and not s.get("checked"):
            report(f, f.line, "node", "a node is changed in part when two variables are exchanged")
    return n, I.obl, I.checked
