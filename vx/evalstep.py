"""Reduction steps of the evaluator, operator by operator."""
from .absint import *

STRICT = {48: ("traverse_left",), 49: ("force",), 50: ("reduce_list", 1), 51: ("reduce_list", 2)}
READS = {"f_GET_CONS_HD", "f_GET_CONS_TL", "f_GET_AINT", "GET_INT", "f_GET_STRING", "f_GET_BOOL", "f_GET_BEXPR"}
# functions that may receive an evaluated operand that was not tested for failure, because they store it or handle it
TOLERATE = {"Set_RefVar", "Gen_map2", "Find_in_g_cache", "Insert_in_g_cache", "Copy_Graph", "Is_equal_nofail"}
NEUTRAL = {"dec_ref_cnt", "VX_INC_REFCNT", "PUSH_GLOBAL_GC", "POP_GLOBAL_GC"}

LAWS = {   # operator: (operands, law); operands numbered from the innermost
    "P_S": (3, ("@", ("@", 1, 3), ("@", 2, 3))),
    "P_SPRIME": (4, ("@", ("@", 1, ("@", 2, 4)), ("@", 3, 4))),
    "P_C": (3, ("@", ("@", 1, 3), 2)),
    "P_CPRIME": (4, ("@", ("@", 1, ("@", 2, 4)), 3)),
    "P_B": (3, ("@", 1, ("@", 2, 3))),
    "P_BSTAR": (4, ("@", 1, ("@", 2, ("@", 3, 4)))),
    "P_BPRIME": (4, ("@", ("@", 1, 2), ("@", 3, 4))),
    "P_Y": (1, ("@", 1, "self")),
    "P_THEN": (2, ("@", 2, 1)),
    "P_CONS": (2, (":", 1, 2)),
    "P_TUPLE": (2, (":", 1, 2)),
    "P_STRICT_CONS": (2, (":", 1, 2)),
    "P_STRICT_TUPLE": (2, (":", 1, 2)),
    "P_K": (2, ("=", 1)),
    "P_I": (1, ("=", 1)),
    "P_NSEQ": (2, ("=", 2)),
    "P_SEQ": (2, ("=", 2)),
    "P_FSEQ": (2, ("=", 2)),
    "P_DEBUG": (1, ("=", 1)),
    "P_HEAD": (1, ("=", ("hd", 1))),
    "P_FST": (1, ("=", ("hd", 1))),
    "P_TAIL": (1, ("=", ("tl", 1))),
    "P_SND": (1, ("=", ("tl", 1))),
    "P_NAMED_ARG": (3, ("=", 1)),
}


class Step(AI):
    """values: ("op",k) the k-th operand; ("sp",k) the stack pointer k entries
    up; ("nd",k) the application node with k operands; ("root",) the operator"""

    def __init__(self, P, f, opname, report):
        super().__init__(P)
        self.f, self.opname, self.report = f, opname, report
        self.obl = 0
        self.condvar = None

    # -- stack --
    def h_load(self, e, st):
        if e[0] == "var" and e[3].split("@")[0] == "void_nd":
            return (("void",), st)
        if e[0] == "idx":
            out = []
            for v, s in self.ev(e[3], st):
                for i, s2 in self.ev(e[4], s):
                    if v == ("letters",):
                        out.append((("letter",), self.at_letter(i, s2)))
                    else:
                        out.append((None, s2))
            return out
        if e[0] == "un" and e[3] == "*":
            r = self.ev(e[4], st)
            out = []
            for v, s in r:
                if isinstance(v, tuple) and v[0] == "letters":
                    out.append((("letter",), self.at_letter(v[1], s) if len(v) > 1 else s))
                    continue
                if isinstance(v, tuple) and v[0] == "sp":
                    if isinstance(v[1], int):
                        k = v[1] + 1
                        s = self.need(e, k, s)
                        out.append((s.get(("slot", k), ("nd", k)), s))
                    else:
                        out.append((("nd", ("+", v[1])) if v[1] != "N-1" else ("nd", "N"), s))
                else:
                    out.append((None, s))
            return out
        return None

    def at_letter(self, i, st):
        """the strictness letter number i is looked at"""
        if isinstance(i, int):
            return st.set("pos", i)
        if isinstance(i, tuple) and i[0] == "idx" and i[1]:
            return self.shift(st, -i[1])
        return st

    def shift(self, st, d):
        return St({k: (("idx", v[1] + d) if isinstance(v, tuple) and v and v[0] == "idx" else v) for k, v in st.d.items()})

    def assign(self, e, lhs, v, st):
        old = st.get(strip(lhs)[3]) if strip(lhs)[0] == "var" else None
        if e[0] == "un" and old == ("letters",):
            st = self.shift(st, -1).set("pos", min(4, st.get("pos", 0) + 1))
        return super().assign(e, lhs, v, st)

    def need(self, e, k, st):
        """operand k must be known to be on the stack"""
        self.obl += 1
        if st.get("mode") == "N":
            return st
        if k > st.get("dlb", 0):
            self.report(e[1], "depth", "takes operand %d although only %d operands are known to be present" % (k, st.get("dlb", 0)))
        return st.set("maxop", max(k, st.get("maxop", 0)))

    def h_bin(self, op, a, b, st):
        if isinstance(a, tuple) and a[0] == "letters" and op in ("+", "-"):
            return ("letters",) if b == 1 and op == "+" else ("letters", b)
        if op == "+" and st.get("mode") == "N" and b == 1 and isinstance(a, int):
            return ("idx", a + 1 - st.get("pos", 0))
        if op in ("+", "-") and isinstance(a, tuple) and a[0] == "idx" and isinstance(b, int):
            return ("idx", max(-4, min(4, a[1] + (b if op == "+" else -b))))
        if isinstance(a, tuple) and a[0] == "sp" and a[1] == 0 and op == "+" and st.get("letter") is not None and b != ("acnt",):
            d = b[1] if isinstance(b, tuple) and b[0] == "idx" else b - st.get("pos", 0) if isinstance(b, int) else None
            if d is not None:
                self.obl += 1
                if d:
                    self.report(0, "strictness", "the argument evaluated is not the one the strictness letter stands for")
                return ("sp", "i")
        if isinstance(a, tuple) and a[0] == "sp" and op in ("+", "-"):
            if isinstance(a[1], int) and isinstance(b, int):
                return ("sp", a[1] + b if op == "+" else a[1] - b)
            if op == "+" and a[1] == 0 and isinstance(b, tuple):
                if b == ("acnt",):
                    return ("sp", "N")
                if b == ("depth", 0):
                    return ("sp", "depth")
                if b == ("depth", -1):
                    return ("sp", "depth-1")
                if b == ("acnt-1",):
                    return ("sp", "N-1")
            if op == "-" and a[1] == "N" and b == 1:
                return ("sp", "N-1")
            return ("sp", "?")
        if isinstance(a, tuple) and a[0] == "sp" and op == "+":
            return ("sp", "?")
        if isinstance(a, tuple) and a[0] == "depth":
            if op in ("+", "-") and isinstance(b, int) and isinstance(a[1], int):
                return ("depth", a[1] + b if op == "+" else a[1] - b)
            if op == "-" and b == ("acnt",):
                return ("depth", "-N")
            lb = st.get("dlb", 0)
            if isinstance(b, int) and isinstance(a[1], int) and a[1] == 0:
                if op == "<" and lb >= b:
                    return 0
                if op == ">" and lb > b:
                    return 1
                if op == ">=" and lb >= b:
                    return 1
                if op == "==" and lb > b:
                    return 0
                if op == "!=" and lb > b:
                    return 1
        if a == ("acnt",) and b == 1 and op == "-":
            return ("acnt-1",)
        if op in ("==", "!=") and a is not None and a == b and isinstance(a, tuple) and a[0] in ("op", "nd", "void"):
            return int(op == "==")
        return None

    def h_assume(self, e, v, truth, st):
        x = strip(e)
        if x[0] == "bin" and x[3] in ("<", ">=", ">", "==", "!=", "<="):
            for a, s in self.ev(x[4], st):
                for b, s2 in self.ev(x[5], s):
                    if isinstance(a, tuple) and a[0] == "depth" and a[1] == 0:
                        if isinstance(b, int):
                            op = x[3]
                            if not truth:
                                op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
                            lb = {">=": b, ">": b + 1, "==": b}.get(op)
                            if lb is not None and lb > st.get("dlb", 0):
                                st = st.set("dlb", lb)
                            ub = {"==": b, "<=": b, "<": b - 1}.get(op)
                            if ub is not None:
                                st = st.set("dub", min(ub, st.get("dub", ub)))
                            if op in ("<", "<=") and b > 0:
                                st = st.set("few", 1)
                            if op == "!=" and b == 0:
                                st = st.set("dlb", max(1, st.get("dlb", 0)))
                        elif b == ("acnt",):
                            op = x[3]
                            if (op == "<") == truth:
                                st = st.set("few", 1)
                            else:
                                st = st.set("mode", "N")
        if x[0] == "call":
            n = (callee(x) or "").split("@")[0]
            if n in ("is_fail", "is_pat_fail") or (n == "VX_IS" and x[4][0][3] in ("FAILURE", "CONS")):
                a = x[4][-1]
                for v, s in self.ev(a, st):
                    k = self.opkey(v)
                    if k is not None and (st.get(k) != "raw" or n == "VX_IS"):
                        if n == "VX_IS" and not truth and st.get(k) == "ev":
                            st = st.set(("neg", k[1]), e[1])
                        if n == "VX_IS" and x[4][0][3] == "CONS":
                            return st.set(k, "ok") if truth else st
                        if n == "is_pat_fail":
                            # only the failure of the match is caught; others go on
                            return st.set(k, "caught" if truth else "ok")
                        return st.set(k, "fail" if truth else "ok")
        if x[0] == "bin" and x[3] in ("==", "!="):
            for a, s in self.ev(x[4], st):
                for b, s2 in self.ev(x[5], s):
                    if a == ("letter",) and isinstance(b, int) and b and (x[3] == "==") == truth:
                        st = self.h_case(None, b, st, e[1])
                    st = self.boolfact(a, b, (x[3] == "==") == truth, st)
        if x[0] == "call" and (callee(x) or "").split("@")[0] == "check_true_or_false":
            st = st.set("scalar", int(truth))
        return st

    def boolfact(self, a, b, eq, st):
        """what a comparison of the condition with a constant says"""
        if b in (("T",), ("F",)):
            pass
        elif a in (("T",), ("F",)):
            a, b = b, a
        else:
            return st
        neg = b == ("F",)
        if a == ("cond0",):
            return st.set("condT", 1) if eq and not neg else st
        under = None
        if isinstance(a, tuple) and a[0] == "and" and len(a) == 3:
            for c, x in ((a[1], a[2]), (a[2], a[1])):
                if c == ("cond0",):
                    under, a = c, x
                    break
            else:
                return st
            if not neg:
                return st
        while isinstance(a, tuple) and a[0] == "not":
            a, neg = a[1], not neg
        if a != ("b", 1):
            return st
        if under is not None:
            # cond0 & a == F: a is false wherever we are
            if eq:
                return st.set("chosen", 3 if neg else 2)
            return st.set(("open", 2 if neg else 3), 1)
        if not st.get("scalar"):
            return st
        return st.set("chosen", (3 if neg else 2) if eq else (2 if neg else 3))

    def opkey(self, v):
        if isinstance(v, tuple) and v[0] == "op":
            return ("st", v[1])
        return None

    def h_node(self, f, n, st):
        if n.kind == "dead":
            for k in st.d:
                if isinstance(k, tuple) and k[0] == "neg" and st.get(("st", k[1])) == "ev":
                    self.report(st.get(k), "failure", "aborts when operand %s has failed" % (k[1],))
        return st

    def status(self, st, k):
        return st.get(k, "raw")

    def use(self, e, v, st, what):
        """the content of operand v is used"""
        k = self.opkey(v)
        if k is None:
            return st
        self.obl += 1
        s = self.status(st, k)
        if s == "raw":
            self.report(e[1], "unevaluated", "%s: operand %s is used before it has been evaluated" % (show(e)[:60], v[1]))
        elif s == "ev":
            self.report(e[1], "failure", "%s: operand %s was evaluated but not tested for failure" % (show(e)[:60], v[1]))
        elif s == "fail" and what == "read":
            self.report(e[1], "failure", "%s: operand %s is read although it has failed" % (show(e)[:60], v[1]))
        return st

    def ref(self, v, st, d=1):
        """a new reference to v has been made"""
        if isinstance(v, tuple) and v[0] in ("op", "nd"):
            c = st.get(("rc", v), 0) + d
            if abs(c) > 6:
                return st
            return st.set(("rc", v), c if c else None)
        return st

    def h_call(self, n, e, a, st):
        if n in ("f_GET_APPLY_RIGHT", "f_GET_APPLY_LEFT"):
            v = a[0]
            if isinstance(v, tuple) and v[0] == "nd":
                if n.endswith("RIGHT"):
                    if not isinstance(v[1], int):
                        st = st.set(("st", v[1]), None)
                    return [(("op", v[1]), st)]
                if isinstance(v[1], int):
                    return [(("nd", v[1] - 1) if v[1] > 1 else ("root",), st)]
            return [(None, st)]
        if n in ("traverse_left", "force", "reduce_list", "Eval", "reduce"):
            k = self.opkey(a[0])
            if k is not None:
                if self.status(st, k) in ("raw", "ok", "caught"):
                    st = st.set(k, "ev")
                st = st.set(("forced", k[1]), 1) if n == "force" else st
            if st.get("mode") == "N" and k is not None:
                self.obl += 1
                want = STRICT.get(st.get("letter"))
                have = (n,) + tuple(x for x in a[1:] if n == "reduce_list")
                if st.get("letter") == 45:
                    self.report(e[1], "strictness", "argument with strictness letter '-' is evaluated")
                elif want is not None and want != have:
                    self.report(e[1], "strictness", "argument with strictness letter '%s' is evaluated by %s" % (chr(st.get("letter")), show(e)))
                st = st.set("evdone", 1)
            v = a[0]
            if k is not None:
                # the condition under which an operand is evaluated
                st = st.set(("under", k[1]), st.get(self.condvar))
            return [(v, st)]
        if n == "f_GET_BOOL" and self.opkey(a[0]):
            return [(("b", a[0][1]), self.use(e, a[0], st, "read"))]
        if n in ("B_One", "B_Zero", "B_Not", "B_And"):
            return [({"B_One": ("T",), "B_Zero": ("F",), "B_Not": ("not", a[0] if a else None), "B_And": ("and",) + tuple(a)}[n], st)]
        if n in READS:
            st = self.use(e, a[0], st, "read")
            if n in ("f_GET_CONS_HD", "f_GET_CONS_TL") and self.opkey(a[0]):
                return [(("hd" if n.endswith("HD") else "tl", a[0]), st)]
            return [(None, st)]
        if n == "VX_GETP" or n == "VX_GETF":
            if e[4][0][3] == "FAIL_STRING":
                return [(None, st)]
            if self.opkey(a[1]) and e[4][0][3] not in ("TYPE", "LEAF_TYPE", "PRIM_FN"):
                st = self.use(e, a[1], st, "read")
            return [(None, st)]
        if n in ("is_fail", "is_pat_fail"):
            k = self.opkey(a[0])
            s = self.status(st, k) if k else None
            if s == "ok":
                return [(0, st)]
            if s == "fail":
                return [(1 if n == "is_fail" else None, st)]
            return [(None, st)]
        if n == "VX_IS":
            return [(None, st)]
        if n == "VX_INC_REFCNT":
            return [(None, self.ref(a[0], st, -1))]
        if n == "dec_ref_cnt":
            v = a[0]
            if isinstance(v, tuple) and v[0] in ("op", "nd", "root"):
                st = st.set(("dec", v), st.get(("dec", v), 0) + 1)
            return [(None, st)]
        if n in ("Make_APPL_ND", "Make_CONS_ND"):
            for v in a:
                st = self.ref(v, st)
            return [(("@" if n == "Make_APPL_ND" else ":", a[0], a[1]), st)]
        if n in ("Make_0inp_Primitive", "Make_1inp_Primitive", "Make_2inp_Primitive", "Make_3inp_Primitive"):
            for v in a[1:]:
                st = self.ref(v, st)
            return [(("prim",) + tuple(a), st)]
        if n == "VX_SETG":
            kind, v = e[4][0][3], a[2]
            t = a[1]
            st = self.ref(v, st)
            if self.isredex(t, st):
                st = self.wrote(t, st.set(("R", kind), v))
                if kind.startswith("CONS"):
                    st = st.set("kind", ":") if st.get("kind") == ":" else st
            return [(None, st)]
        if n in ("VX_SETF", "VX_SETP"):
            if self.isredex(a[1], st):
                if e[4][0][3] == "FAIL_STRING" and any(x[0] == "var" and x[3].split("@")[0] == "FailBuf" for x in walk(e[4][2])):
                    st = st.set("msg", 1)
                st = self.wrote(a[1], st)
                if n == "VX_SETF" and e[4][0][3] == "TYPE":
                    st = st.set("kind", ":" if strip(e[4][2])[0] == "int" and strip(e[4][2])[4] == "CONS_ND" else "leaf")
                if n == "VX_SETF" and e[4][0][3] == "PRIM_FN":
                    x = strip(e[4][2])
                    if x[0] == "int" and len(x) > 4 and x[4] == "P_FAIL":
                        st = st.set("failed", 1)
            return [(None, st)]
        if n == "VX_OVERWRITE":
            if self.isredex(a[0], st):
                v = a[1]
                k = self.opkey(v)
                st = self.wrote(a[0], st).set("kind", "=").set(("R", "="), v)
                if k:
                    if self.status(st, k) == "fail":
                        st = st.set("failed", 1)
                    st = st.set(("given", k[1]), 1)
            return [(None, st)]
        if n is not None and n.startswith("VX_MK_"):
            if self.isredex(a[0], st):
                st = self.wrote(a[0], st).set("kind", "leaf")
                if n == "VX_MK_FAILURE":
                    st = st.set("failed", 1)
                if n == "VX_MK_CONS":
                    st = st.set("kind", ":").set(("R", "CONS_HD"), a[1]).set(("R", "CONS_TL"), a[2])
                    st = self.ref(a[1], self.ref(a[2], st))
            return [(None, st)]
        if n == "push_trace_fn":
            return [(None, st.set("trace", st.get("trace", 0) + 1))]
        if n == "pop_trace_fn":
            return [(None, st.set("trace", st.get("trace", 0) - 1))]
        if n in ("PUSH_GLOBAL_GC", "PUSH_BDD_GC"):
            k = n[5:]
            return [(None, st.set(k, st.get(k, 0) + 1))]
        if n in ("POP_GLOBAL_GC", "POP_BDD_GC"):
            k = n[4:]
            d = a[0] if isinstance(a[0], int) else 1
            return [(None, st.set(k, st.get(k, 0) - d))]
        if n in ("push_buf", "pop_buf") and a and a[0] == ("addr", "global_gc_buf"):
            return [(None, st.set("GLOBAL_GC", st.get("GLOBAL_GC", 0) + (1 if n == "push_buf" else -1)))]
        if n == "Get_ExtAPI_ArgCnt":
            return [(("acnt",), st)]
        if n == "Get_ExtAPI_Strictness":
            return [(("letters",), st)]
        if n == "Fail_pr" or n == "Fail_append":
            return [(None, st.set("failmsg", 1))]
        if n == "Make_BOOL_leaf":
            return [(("leaf", a[0]), st)]
        if n in ("Find_in_g_cache", "Insert_in_g_cache") and len(a) > 1:
            self.obl += 1
            if not self.has(("cond0",), a[1]) or not any(self.has(("op", k), a[1]) for k in range(1, 5)):
                self.report(e[1], "law", "a cached result is keyed without the argument and the condition it was computed under")
            if n[0] == "F":
                st = st.set("ckey", a[1])
            elif st.get("ckey") != a[1]:
                self.report(e[1], "law", "a cached result is entered under another key than it is looked up with")
        if n in TOLERATE or n in NEUTRAL:
            for v in a:
                k = self.opkey(v)
                if k:
                    st = st.set(("given", k[1]), 1)
                if n in ("Set_RefVar", "Insert_in_g_cache"):
                    st = self.ref(v, st)
            if n == "Set_RefVar" and self.opname == "P_UPDATE_RVAR" and not st.get("condT"):
                self.obl += 1
                v = a[1]
                if not (isinstance(v, tuple) and v[0] == "ite" and v[1] == ("cond0",)):
                    self.report(e[1], "law", "an assignment under a condition must keep the old value where the condition is false")
            if n == "Gen_map2":
                c = [st.get(g) for g in self.P.globals if g.split("@")[0] == "current_bdd_cond"]
                return [(("ite", c[0] if c else None) + tuple(v for v in a if self.opkey(v)), st)]
            if n == "Gen_map2":
                return [(("ite",) + tuple(v for v in a if self.opkey(v)), st)]
            return [(None, st)]
        return None

    def h_unknown(self, n, e, a, st):
        if n is None or n in self.failers or any(x[0] == "var" and x[3].split("@")[0] == "FailBuf" for x in e[4][:1]):
            st = st.set("failmsg", 1)
        for i, v in enumerate(a):
            if self.opkey(v) and st.get(self.opkey(v), "raw") == "ev":
                st = self.use(e, v, st, "pass")
            if self.isredex(v, st) and (v != ("root",) or n is None):
                # a helper that is given the redex: result, failure, or by return value
                st = self.wrote(v, st).set("kind", "leaf")
        if n is None:
            c = strip(e[3])
        # addresses of the stack given away: the helper performs the step
        for x in e[4]:
            y = strip(x)
            if y[0] == "un" and y[3] == "&" and strip(y[4])[0] == "var" and strip(y[4])[3].split("@")[0].split("#")[0] == "sp":
                st = st.set("delegated", 1)
        return [(None, st)]

    def has(self, o, v):
        return v == o or isinstance(v, tuple) and any(self.has(o, x) for x in v)

    def h_inline(self, g, args, st):
        return any(isinstance(v, tuple) and v[0] in ("op", "nd", "sp", "@", ":") for v in args) and g.file == self.f.file

    def isredex(self, v, st):
        return isinstance(v, tuple) and v[0] in ("nd", "root")

    def wrote(self, v, st):
        return st.set("written", st.get("written", frozenset()) | {v})

    def h_store(self, e, l, v, st):
        if l[0] == "un" and l[3] == "*":
            for p, s in self.ev(l[4], st):
                if isinstance(p, tuple) and p[0] == "sp" and isinstance(p[1], int):
                    st = st.set(("slot", p[1] + 1), v if v is not None else ("unknown",))
            return st
        if l[0] == "var" and l[3] == self.condvar and v is None:
            st = st.set(l[3], ("changed",))
        return st

    def h_case(self, n, val, st, line=0):
        if n is not None:
            line = n.line
            if not any(v == ("letter",) for v, _ in self.ev(n.expr, st)):
                return st
        if st.get("mode") == "N" and st.get("letter", 0) != "done":
            st = self.letter_done(line, st)
            st = st.set("letter", val if val is not None else "other").set("evdone", None)
        return st

    def letter_done(self, line, st):
        l = st.get("letter")
        if l in STRICT:
            self.obl += 1
            if st.get("evdone") is None:
                self.report(line, "strictness", "argument with strictness letter '%s' is not evaluated" % chr(l))
        return st


def resolve(v):
    """value -> law term"""
    if isinstance(v, tuple):
        if v[0] == "op":
            return v[1]
        if v[0] == "nd":
            return "self"
        if v[0] in ("@", ":"):
            return (v[0], resolve(v[1]), resolve(v[2]))
        if v[0] in ("hd", "tl"):
            return (v[0], resolve(v[1]))
        if v[0] == "void":
            return "void"
    return "?"


class Steps:
    """finds the dispatch and runs every operator"""

    def __init__(self, P):
        self.P = P
        self.reports = []
        self.ops = {}
        self.obl = 0
        self.states = 0
        best = None
        for f in P.funcs.values():
            if not any(callee(c) == "VX_GETF" and c[4][0][3] == "PRIM_FN" for c in calls_of(f)):
                continue
            g = cfg(P, f)
            for n in g.nodes:
                if n.kind == "sw" and n.id in g.reach and any(x[0] == "call" and callee(x) == "VX_GETF" and x[4][0][3] == "PRIM_FN" for x in walk(n.expr)):
                    names = {l[2] for t, l in n.succ if l and l[0] == "C"}
                    if {"P_S", "P_K", "P_I", "P_Y", "P_COND", "P_EXTAPI_FN"} <= names and any(callee(c) in ("dec_ref_cnt",) for c in calls_of(f)):
                        # the evaluator also moves the stack pointer
                        if best is None or len(n.succ) > len(best[2].succ):
                            best = (f, g, n)
        if best is None:
            raise AnalysisBroken("the evaluator's dispatch over primitives was not found")
        self.f, self.g, self.sw = best
        self.vars()

    def vars(self):
        f = self.f
        x = [e for e in walk(self.sw.expr) if e[0] == "call" and callee(e) == "VX_GETF"][0]
        self.root = strip(x[4][1])[3]
        pf = strip(self.sw.expr)
        self.pfn = strip(pf[4])[3] if pf[0] == "bin" and pf[3] == "=" else (pf[3] if pf[0] == "var" else None)
        self.sp = None
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "un" and strip(e[4])[3] == "*" and strip(e[5])[0] == "var" and strip(e[5])[3] == self.root:
                y = strip(strip(e[4])[4])
                while y[0] != "var":
                    y = strip(subexprs(y)[0])
                self.sp = y[3]
        # the operand count: a local that is incremented where the spine is walked
        self.depth = None
        for e in all_exprs(f):
            if e[0] == "un" and e[3] in ("++", "p++") or e[0] == "bin" and e[3] in ("+=",):
                y = strip(e[4])
                if y[0] == "var" and y[4] == "l" and f.types[y[2]] == "int":
                    n = y[3]
                    if any(c[0] == "bin" and c[3] == "<" and strip(c[4])[0] == "var" and strip(c[4])[3] == n for c in all_exprs(f)) and \
                            sum(1 for c in all_exprs(f) if c[0] == "bin" and c[3] in ("<", ">=") and strip(c[4])[0] == "var" and strip(c[4])[3] == n) > 20:
                        self.depth = n
        if not (self.root and self.sp and self.depth):
            raise AnalysisBroken("evaluator variables not identified (%s %s %s)" % (self.root, self.sp, self.depth))
        # functions that may leave a message in FailBuf
        fb = lambda x: any(y[0] == "var" and y[3].split("@")[0] == "FailBuf" for y in walk(x))
        calls = {}
        self.failers = set()
        for h in self.P.funcs.values():
            cs = list(calls_of(h))
            calls[h.short] = {(callee(c) or "").split("@")[0] for c in cs}
            if h.name in ("Fail_pr", "Fail_append") or any(callee(c) not in self.P.funcs and any(fb(x) for x in c[4][:1]) for c in cs):
                self.failers.add(h.short)
        more = True
        while more:
            more = False
            for h, c in calls.items():
                if h not in self.failers and c & self.failers:
                    self.failers.add(h)
                    more = True
        self.condvar = None
        for n in self.P.globals:
            if n.split("@")[0] == "cur_eval_cond":
                self.condvar = n
        # where a step ends: the loop head the dispatch is reached from
        g = self.g
        seen, st = set(), [self.sw]
        while st:
            n = st.pop()
            for t, l in n.succ:
                if t.id not in seen:
                    seen.add(t.id)
                    st.append(t)
        head = [n for n in g.rpo if n.id in seen and self.reaches(n, self.sw)]
        if not head:
            raise AnalysisBroken("the evaluator loop was not found")
        self.head = head[0]

    def reaches(self, a, b):
        seen, st = set(), [a]
        while st:
            n = st.pop()
            if n is b:
                return True
            for t, l in n.succ:
                if t.id not in seen:
                    seen.add(t.id)
                    st.append(t)
        return False

    def run(self, report):
        for t, l in self.sw.succ:
            if not (l and l[0] == "C"):
                continue
            self.one(t, l[2], l[1], report)

    def one(self, node, op, val, report):
        rep = lambda line, rule, msg: report(line, rule, op, msg)
        I = Step(self.P, self.f, op, rep)
        I.condvar = self.condvar
        I.failers = self.failers
        st = {self.sp: ("sp", 0), self.depth: ("depth", 0), self.root: ("root",)}
        if self.pfn:
            st[self.pfn] = val
        if self.condvar:
            st[self.condvar] = ("cond0",)
        I.stopped = []
        exits = I.run(self.f, St(st), node, {self.head.id})
        ns = set()
        for n, t, s in I.stopped:
            ns.add(self.atstop(I, n, s, op, rep))
        ns.discard(None)
        for v, s in exits:
            self.atexit(I, v, s, op, rep)
        if len(ns - {0}) > 1 or (0 in ns and len(ns) > 1 and op != "P_EXTAPI_FN"):
            rep(node.line, "arity", "consumes a different number of operands on different paths: %s" % sorted(map(str, ns)))
        self.ops[op] = sorted(map(str, ns))
        self.obl += I.obl
        self.states += I.nstates

    def atstop(self, I, n, s, op, rep):
        line = n.line
        if s.get("delegated"):
            return None
        I.obl += 4
        sp, d, root = s.get(self.sp), s.get(self.depth), s.get(self.root)
        N = sp[1] if isinstance(sp, tuple) and sp[0] == "sp" else "?"
        if N == 0 and root == ("root",) and s.get("written") == frozenset([("root",)]):
            return 0
        if d != ("depth", -N if isinstance(N, int) else "-" + str(N)):
            rep(line, "pop", "the stack is popped by %s but the operand count changes by %s" % (N, d[1] if isinstance(d, tuple) else "?"))
        if root != ("nd", N):
            rep(line, "root", "evaluation continues at %s although %s operands were consumed" % (self.shownd(root), N))
        if isinstance(N, int) and s.get("dlb", 0) != N:
            rep(line, "arity", "consumes %s operands but %s were required to be present" % (N, s.get("dlb", 0)))
        w = s.get("written", frozenset())
        if not w:
            rep(line, "noresult", "a step ends without having rewritten the application")
        elif w != frozenset([("nd", N)]):
            rep(line, "redex", "rewrites %s instead of the application of %s operands" % (", ".join(self.shownd(x) for x in sorted(w, key=str)), N))
        for k, what in (("trace", "function trace"), ("GLOBAL_GC", "garbage-collection roots"), ("BDD_GC", "BDD roots")):
            if s.get(k, 0):
                rep(line, "balance", "the stack of %s is left %+d deep" % (what, s.get(k)))
        if self.condvar and s.get(self.condvar) != ("cond0",):
            rep(line, "condition", "the evaluation condition is not restored")
        if s.get("mode") == "N":
            I.letter_done(line, s)
        # operands that were evaluated
        for k in list(s.d):
            if isinstance(k, tuple) and k[0] == "st":
                I.obl += 1
                o = ("op", k[1])
                stored = s.get(("given", k[1])) or any(isinstance(r, tuple) and r[0] == "R" and self.inside(o, s.get(r)) for r in s.d)
                if s.get(k) == "ev" and not stored:
                    rep(line, "failure", "operand %s was evaluated but its failure is ignored" % (k[1],))
                if s.get(k) == "fail" and not s.get("failed"):
                    if op not in ("P_CATCH", "P_GEN_CATCH"):
                        rep(line, "failure", "operand %s failed but the result is not a failure" % (k[1],))
                if s.get(k) == "caught" and op != "P_PCATCH":
                    rep(line, "failure", "a match failure of operand %s is swallowed" % (k[1],))
        if s.get("failed") and s.get("msg") and not s.get("failmsg") and op != "P_ERROR":
            rep(line, "failure", "the failure carries the message of an earlier failure")
        if op in LAWS and not s.get("failed"):
            self.law(I, line, s, op, N, rep)
        if op == "P_COND" and not s.get("failed"):
            self.cond(I, line, s, rep)
        if op in ("P_CATCH", "P_GEN_CATCH", "P_PCATCH"):
            r = s.get(("R", "="))
            I.obl += 1
            caught = s.get(("st", 1)) in ("fail", "caught")
            if not caught and r != ("op", 1):
                rep(line, "law", "the first operand did not fail but is not the result")
            if caught and r == ("op", 1):
                rep(line, "law", "the failure of the first operand is not caught")
            if caught and op != "P_GEN_CATCH" and r != ("op", 2):
                rep(line, "law", "the alternative is not the result")
            if caught and op == "P_GEN_CATCH" and not (isinstance(r, tuple) and r[0] == "@" and r[1] == ("op", 2)):
                rep(line, "law", "the handler is not applied")
        # references
        if isinstance(N, int) and N > 0:
            for k in list(s.d):
                if isinstance(k, tuple) and k[0] == "rc" and isinstance(s.get(k), int) and s.get(k) > 0:
                    rep(line, "refcount", "%d new reference(s) to %s are not counted" % (s.get(k), self.shownd(k[1])))
            if not s.get("failed"):
                below = ("nd", N - 1) if N > 1 else ("root",)
                for v in (below, ("op", N)):
                    I.obl += 1
                    c = s.get(("dec", v), 0)
                    if c > 1:
                        rep(line, "refcount", "%s is released %d times" % (self.shownd(v), c))
                for k in list(s.d):
                    if isinstance(k, tuple) and k[0] == "dec" and k[1] not in (below, ("op", N)):
                        rep(line, "refcount", "%s is released although the application did not refer to it directly" % self.shownd(k[1]))
        return N

    def inside(self, o, v):
        if v == o:
            return True
        return isinstance(v, tuple) and any(self.inside(o, x) for x in v)

    def shownd(self, v):
        if not isinstance(v, tuple):
            return "an unknown node"
        if v[0] == "nd":
            return "the application of %s operand(s)" % (v[1],)
        if v[0] == "op":
            return "operand %s" % (v[1],)
        if v[0] == "root":
            return "the operator"
        return str(v)

    def law(self, I, line, s, op, N, rep):
        n, law = LAWS[op]
        I.obl += 1
        if N != n:
            rep(line, "law", "takes %s operands instead of %d" % (N, n))
            return
        kind = s.get("kind")
        if law[0] == "=":
            got = ("=", resolve(s.get(("R", "="))))
            ok = kind == "=" and got == law
        elif law[0] == "@":
            got = ("@", resolve(s.get(("R", "APPLY_LEFT"))), resolve(s.get(("R", "APPLY_RIGHT"))))
            ok = got == law and kind is None
        else:
            got = (":", resolve(s.get(("R", "CONS_HD"))), resolve(s.get(("R", "CONS_TL"))))
            ok = got == law and kind == ":"
        if not ok:
            rep(line, "law", "rewrites to %s, the law says %s" % (self.term(got), self.term(law)))

    def term(self, t):
        if isinstance(t, tuple):
            if t[0] == "=":
                return self.term(t[1])
            if t[0] in ("hd", "tl"):
                return "%s x%s" % (t[0], t[1])
            return "(%s%s%s)" % (self.term(t[1]), " : " if t[0] == ":" else " ", self.term(t[2]))
        return "x%s" % t if isinstance(t, int) else str(t)

    def cond(self, I, line, s, rep):
        """the conditional gives the branch the condition selects"""
        I.obl += 2
        r = s.get(("R", "="))
        c = s.get("chosen")
        if c is not None:
            if r != ("op", c):
                rep(line, "law", "the condition selects operand %d, the result is %s" % (c, self.shownd(r)))
            for k in (2, 3):
                u = s.get(("under", k))
                if u is not None and not s.get("scalar") and not self.under_ok(u, k):
                    rep(line, "law", "operand %d is evaluated under the wrong condition" % k)
        else:
            if not (isinstance(r, tuple) and r[0] == "ite" and r[1:] == (("b", 1), ("op", 2), ("op", 3))):
                rep(line, "law", "a symbolic condition must merge the two branches in order")
            for k in (2, 3):
                u = s.get(("under", k))
                if u is None or not self.under_ok(u, k):
                    rep(line, "law", "operand %d is evaluated under the wrong condition" % k)

    def under_ok(self, u, k):
        want = ("b", 1) if k == 2 else ("not", ("b", 1))
        return isinstance(u, tuple) and u[0] == "and" and ("cond0",) in u[1:] and want in u[1:]

    def atexit(self, I, v, s, op, rep):
        I.obl += 1
        sp = s.get(self.sp)
        if sp == ("sp", "depth"):
            if op != "P_FAIL" and s.get("written"):
                rep(self.f.end, "early", "gives up for want of operands after having rewritten the application")
            return
        if s.get("dub", 99) == 0 and sp == ("sp", 0):
            return
        if s.get("delegated"):
            return
        rep(self.f.end, "pop", "the evaluator returns without having unwound its stack")
