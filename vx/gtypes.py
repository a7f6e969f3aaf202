"""Type inference over graph-node values in the C implementation of built-ins.

Every g_ptr expression gets an fl type term.  Accessors and constructors of
graph nodes (resolved calls) generate constraints; helpers are analysed in the
context of the call.  The declared fl type of the built-in is rigid."""
from .facts import *


class TV:
    __slots__ = ("link", "con", "args", "hd", "tl", "dyn", "isnil")
    n = 0

    def __init__(self, con=None, args=()):
        self.link = None
        self.con, self.args = con, list(args)
        self.hd = self.tl = None
        self.dyn = False
        self.isnil = None


def find(t):
    while t.link is not None:
        t = t.link
    return t


def tcon(c, *a):
    return TV(c, a)


ATOM = ("int", "string", "bool", "bexpr", "void")


def tshow(t, d=0):
    t = find(t)
    if d > 6:
        return ".."
    if t.dyn:
        return "?"
    if t.con is None:
        if t.hd is not None or t.tl is not None:
            return "cell(%s,%s)" % (tshow(t.hd, d + 1) if t.hd else "_", tshow(t.tl, d + 1) if t.tl else "_")
        return "_"
    if t.con == "list":
        return "(%s list)" % tshow(t.args[0], d + 1)
    if t.con == "pair":
        return "(%s # %s)" % (tshow(t.args[0], d + 1), tshow(t.args[1], d + 1))
    if t.con == "arrow":
        return "(%s -> %s)" % (tshow(t.args[0], d + 1), tshow(t.args[1], d + 1))
    if t.args:
        return "%s<%s>" % (t.con, ",".join(tshow(a, d + 1) for a in t.args))
    return t.con


class Clash(Exception):
    pass


class Trail:
    """undo log"""

    def __init__(self):
        self.log = []

    def set(self, t, attr, v):
        self.log.append((t, attr, getattr(t, attr)))
        setattr(t, attr, v)

    def mark(self):
        return len(self.log)

    def undo(self, m):
        while len(self.log) > m:
            t, a, v = self.log.pop()
            setattr(t, a, v)


class Types:
    def __init__(self, adts=()):
        self.tr = Trail()

    def cell(self, t):
        """make t cons-like; returns (hd, tl) or None when t is opaque"""
        t = find(t)
        if t.dyn:
            return None
        if t.con == "list":
            return t.args[0], t
        if t.con == "pair":
            return t.args[0], t.args[1]
        if t.con is not None:
            if t.con.startswith("adt:"):
                return None
            raise Clash("%s used as a list or pair" % tshow(t))
        if t.hd is None:
            self.tr.set(t, "hd", TV())
            self.tr.set(t, "tl", TV())
        return t.hd, t.tl

    def unify(self, a, b, d=0):
        a, b = find(a), find(b)
        if a is b:
            return
        if a.dyn or b.dyn:
            return
        if d > 200:
            return
        if a.con is None and b.con is None:
            if a.hd is None:
                self.tr.set(a, "link", b)
                return
            if b.hd is None:
                self.tr.set(b, "link", a)
                return
            h1, t1, h2, t2 = a.hd, a.tl, b.hd, b.tl
            self.tr.set(a, "link", b)
            self.unify(h1, h2, d + 1)
            self.unify(t1, t2, d + 1)
            return
        if a.con is None:
            a, b = b, a
        # a has con
        if b.con is None:
            if b.hd is None:
                self.tr.set(b, "link", a)
                return
            if a.con == "list":
                h, t = b.hd, b.tl
                self.tr.set(b, "link", a)
                self.unify(h, a.args[0], d + 1)
                self.unify(t, a, d + 1)
                return
            if a.con == "pair":
                h, t = b.hd, b.tl
                self.tr.set(b, "link", a)
                self.unify(h, a.args[0], d + 1)
                self.unify(t, a.args[1], d + 1)
                return
            if a.con.startswith("adt:"):
                # the representation of a concrete type; its inside is not tracked
                self.tr.set(b, "link", a)
                return
            raise Clash("%s where a list or pair is used" % tshow(a))
        if a.con == b.con:
            if len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args):
                    self.unify(x, y, d + 1)
            return
        ca, cb = a.con, b.con
        if ca == "adt:" and cb.startswith("adt:"):
            self.tr.set(a, "link", b)
            return
        if cb == "adt:" and ca.startswith("adt:"):
            self.tr.set(b, "link", a)
            return
        # a concrete type seen from the inside: constructors are pairs/lists/strings
        if ca.startswith("adt:") and cb in ("pair", "list", "string", "int", "arrow"):
            return
        if cb.startswith("adt:") and ca in ("pair", "list", "string", "int", "arrow"):
            return
        raise Clash("%s against %s" % (tshow(a), tshow(b)))

    def try_unify(self, a, b):
        m = self.tr.mark()
        try:
            self.unify(a, b)
            return True
        except Clash:
            self.tr.undo(m)
            return False

    def copy(self, roots):
        memo = {}

        def cp(t):
            t = find(t)
            if id(t) in memo:
                return memo[id(t)]
            n = TV(t.con)
            n.dyn = t.dyn
            memo[id(t)] = n
            n.args = [cp(x) for x in t.args]
            if t.hd is not None:
                n.hd = cp(t.hd)
                n.tl = cp(t.tl)
            return n
        return [cp(r) if isinstance(r, TV) else r for r in roots]


def DYN():
    t = TV()
    t.dyn = True
    return t


GETLEAF = {"f_GET_AINT": "int", "GET_INT": "int", "f_GET_STRING": "string", "f_GET_BOOL": "bool", "f_GET_BEXPR": "bexpr"}
MAKELEAF = {"Make_BOOL_leaf": "bool", "Make_BEXPR_leaf": "bexpr", "Make_INT_leaf": "int", "Make_AINT_leaf": "int",
            "Make_STRING_leaf": "string", "Make_VOID_leaf": "void", "Make_Void": "void", "Make_VOID": "void"}
MKREDEX = {"VX_MK_BOOL": "bool", "VX_MK_BEXPR": "bexpr", "VX_MK_AINT": "int", "VX_MK_INT": "int",
           "VX_MK_STRING": "string", "VX_MK_VOID": "void"}


EVALS = {"traverse_left": "W", "force": "F", "Eval": "F", "reduce": "W"}
FRESH = {"Gen_map2", "Get_node", "Make_0inp_Primitive", "Make_1inp_Primitive", "Make_2inp_Primitive", "Make_3inp_Primitive",
         "Make_APPL_ND", "Make_Lambda", "Make_VAR_leaf", "Make_USERDEF_leaf", "Make_Failure", "Execute_fl_code",
         "Make_Debug_Primitive", "Make_Printf_Primitive", "Add_args", "Make_arglist", "Make_arg_list", "Convert_CL",
         "Gen_map", "Find_in_g_cache", "Get_RefVar", "Make_TYPE", "Make_Named_Arg"}
SAME = {"Copy_Graph", "List_reverse", "Mk_unique"}
IGNORE = {"dec_ref_cnt", "VX_INC_REFCNT", "is_fail", "is_pat_fail", "PUSH_GLOBAL_GC", "GC_Protect", "GC_Unprotect", "Mark",
          "inc_refcnt_children", "PR", "DPR", "Print_Expr", "refcnt_free_nd", "Is_equal"}
G = ("g_ptr",)


class Report:
    def __init__(self):
        self.items = []

    def add(self, kind, f, line, msg):
        k = (kind, f.name, f.file, line, msg)
        if k not in self.items:
            self.items.append(k)


class Env(dict):
    pass


class Inline:
    """one inlined activation"""
    __slots__ = ("f", "ret", "up", "depth", "gotos", "params", "retR", "retn")

    def __init__(self, f, up):
        self.f, self.up = f, up
        self.ret = None
        self.depth = (up.depth + 1) if up else 0
        self.gotos = {}
        self.params = None
        self.retR = None
        self.retn = 0


MAXD = 7
# how much of a value is evaluated: U nothing, W the outermost node, 2 the list
# cells, 3 the cells of a list and of the lists in it, F everything
LV = {"U": 0, "W": 1, "2": 2, "3": 3, "F": 4}
HDL = {"U": "U", "W": "U", "2": "U", "3": "2", "F": "F"}
TLL = {"U": "U", "W": "U", "2": "2", "3": "3", "F": "F"}


def nd(t, lv="F"):
    return ("nd", t, lv)


class Infer:
    def __init__(self, P, ext_of_class, ext_of_ctype):
        self.P = P
        self.T = Types()
        self.rep = Report()
        self.ext_of_class = ext_of_class      # oidx global -> type name
        self.ext_of_ctype = ext_of_ctype      # C pointer type -> type name
        self.steps = 0
        self.depthmax = 0
        self.nops = 0
        self.loose = 0                        # >0: do not report
        self.funcs = set()
        self.insp = {}

    # one built-in: args = list of TV (declared argument types), res = TV
    def builtin(self, f, args, strict, res):
        self.args, self.res = args, res
        self.lv = [{"-": "U", "0": "W", "1": "F", "2": "2", "3": "3"}.get(c, "U") for c in strict]
        self.used = [set() for _ in args]
        self.reached = 0
        self.steps = 0
        act = Inline(f, None)
        env = Env()
        env[f.params[0][0]] = ("spine", 0)
        if self.stmt(act, f.body, env):
            self.at_return(act, env, f.end)

    def at_return(self, act, env, line):
        """normal return of the built-in: what is in the redex"""
        r = env.get("$R")
        if r is None:
            return
        self.nops += 1
        try:
            self.T.unify(self.res, r)
        except Clash as x:
            if not self.loose:
                self.rep.add("result", act.f, line, "result has type %s, declared %s" % (tshow(r), tshow(self.res)))

    def isg(self, f, ti):
        return f.types[ti].replace("const ", "").strip() in ("g_ptr", "struct node_rec *", "node_ptr")

    def clash(self, act, e, msg, kind="clash"):
        if self.loose:
            self.pending.append(1)
            return
        chain = []
        a = act
        while a is not None:
            chain.append(a.f.short)
            a = a.up
        self.rep.add(kind, act.f, e[1], "%s: %s%s" % (show(e)[:80], msg,
                     (" (called from %s)" % " <- ".join(chain[1:])) if len(chain) > 1 else ""))

    # ---- values ----
    def tv(self, v, env=None):
        """value -> TV or None"""
        if isinstance(v, tuple):
            if v[0] == "nd":
                return v[1]
            if v[0] == "spine" and v[1] == 0 and env is not None:
                r = env.get("$R")
                if r is None:
                    r = env["$R"] = TV()
                return r
        return None

    def lvl(self, v):
        return v[2] if isinstance(v, tuple) and v[0] == "nd" else "F"

    def node_arg(self, act, e, env):
        v = self.ev(act, e, env)
        t = self.tv(v, env)
        return t if t is not None else DYN()

    def inspect(self, act, e, a, env):
        """the node is looked into: it must have been evaluated"""
        v = self.ev(act, a, env)
        t = self.tv(v, env)
        lv = self.lvl(v)
        if lv == "U":
            self.clash(act, e, "looks into a value that has not been evaluated", "lazy")
        return (t if t is not None else DYN()), lv

    def need(self, act, e, t, con):
        self.nops += 1
        try:
            self.T.unify(t, tcon(con))
        except Clash as x:
            self.clash(act, e, "reads a %s: %s" % (con, x))

    def ev(self, act, e, env):
        if e is None:
            return None
        self.steps += 1
        if self.steps > 600000:
            raise AnalysisBroken("type inference does not settle in %s" % act.f.name)
        k = e[0]
        f = act.f
        if k == "var":
            v = env.get(e[3])
            if v is not None:
                return v
            if self.isg(f, e[2]):
                if e[4] in ("l", "p"):
                    v = nd(TV())
                    env[e[3]] = v
                    return v
                return nd(DYN())
            return None
        if k == "fn":
            return ("fun", e[3])
        if k == "cast":
            v = self.ev(act, e[3], env)
            if isinstance(v, tuple) and v[0] == "ext":
                self.bind_ext(act, e, v[1], f.types[e[2]])
                return v
            if self.isg(f, e[2]) and not (isinstance(v, tuple) and v[0] in ("spine", "nd", "null")):
                return nd(DYN())
            return v
        if k == "un":
            if e[3] == "&":
                x = strip(e[4])
                if x[0] == "var":
                    if self.isg(f, x[2]) and x[3] not in env:
                        env[x[3]] = nd(TV())
                    return ("ref", x[3], env)
                self.ev(act, e[4], env)
                return None
            if e[3] == "*":
                v = self.ev(act, e[4], env)
                if isinstance(v, tuple) and v[0] == "ref":
                    r = v[2].get(v[1])
                    if r is not None:
                        return r
                return nd(DYN()) if self.isg(f, e[2]) else None
            self.ev(act, e[4], env)
            return None
        if k == "bin":
            op = e[3]
            if op == "=":
                v = self.ev(act, e[5], env)
                self.assign(act, e, e[4], v, env)
                return v
            if op == ",":
                self.ev(act, e[4], env)
                return self.ev(act, e[5], env)
            if op in ("&&", "||"):
                self.ev(act, e[4], env)
                e2 = self.fork(env)
                self.refine(e[4], e2, op == "&&")
                self.ev(act, e[5], e2)
                self.merge(env, e2)
                return None
            self.ev(act, e[4], env)
            self.ev(act, e[5], env)
            return None
        if k == "cond":
            self.ev(act, e[3], env)
            e2 = self.fork(env)
            a = self.ev(act, e[4], env)
            b = self.ev(act, e[5], e2)
            self.merge(env, e2)
            return self.join(a, b)
        if k == "call":
            return self.call(act, e, env)
        if k == "idx" or k == "mem":
            for s in subexprs(e):
                self.ev(act, s, env)
            return nd(DYN()) if self.isg(f, e[2]) else None
        if k == "stmtexpr":
            self.stmt(act, e[3], env)
            return None
        if k == "int":
            if e[3] == 0:
                return ("null",)
            return None
        for s in subexprs(e):
            self.ev(act, s, env)
        return nd(DYN()) if k not in ("szof", "str", "flt") and isinstance(e[2], int) and self.isg(f, e[2]) else None

    def refine(self, c, env, truth):
        """what a condition says about failures: a failed value has every type"""
        c = strip(c)
        if c is None:
            return
        if c[0] == "un" and c[3] == "!":
            return self.refine(c[4], env, not truth)
        if c[0] == "bin" and c[3] == "&&" and truth or c[0] == "bin" and c[3] == "||" and not truth:
            self.refine(c[4], env, truth)
            self.refine(c[5], env, truth)
            return
        if c[0] == "bin" and c[3] == "||" and truth:
            # one of them; every variable tested for failure may be failed
            for y in (c[4], c[5]):
                self.refine(y, env, truth)
            return
        if c[0] == "call" and truth:
            n = callee(c)
            x = None
            if n == "is_fail":
                x = strip(c[4][0])
            elif n == "VX_IS" and c[4][0][3] == "FAILURE":
                x = strip(c[4][1])
            if x is not None and x[0] == "bin" and x[3] == "=":
                x = strip(x[4])
            if x is not None and x[0] == "var" and x[3] in env:
                v = env[x[3]]
                if isinstance(v, tuple) and v[0] == "nd":
                    env[x[3]] = nd(DYN())

    def bind_ext(self, act, e, t, ctype):
        ctype = ctype.replace("const ", "").strip()
        n = self.ext_of_ctype.get(ctype)
        if n is None:
            return
        self.nops += 1
        try:
            self.T.unify(t, TV(n))
        except Clash as x:
            self.clash(act, e, "object read as %s: %s" % (ctype, x))

    def join(self, a, b):
        if a is b or b is None:
            return a
        if a is None:
            return b
        if a[0] == "null":
            return b
        if b[0] == "null":
            return a
        if a[0] == "nd" and b[0] == "nd":
            lv = a[2] if LV[a[2]] <= LV[b[2]] else b[2]
            ta, tb = find(a[1]), find(b[1])
            if ta is tb:
                return nd(ta, lv)
            if ta.dyn or tb.dyn:
                return nd(DYN(), lv)
            if self.T.try_unify(ta, tb):
                return nd(ta, lv)
            return nd(DYN(), lv)
        if a[0] == "spine" and b[0] == "spine":
            return a if a == b else nd(DYN())
        if a[0] == "ref" and b[0] == "ref":
            return a
        if a == b:
            return a
        if a[0] in ("nd", "spine") or b[0] in ("nd", "spine"):
            return nd(DYN())
        return None

    def fork(self, env):
        return Env(env)

    def joinR(self, a, b):
        if a is None or a is b:
            return b
        if b is None:
            return a
        if find(a) is find(b):
            return a
        if self.T.try_unify(a, b):
            return a
        return DYN()

    def merge(self, env, other):
        """env := env join other"""
        if "$R" in other:
            env["$R"] = self.joinR(env.get("$R"), other["$R"])
        for k in list(env.keys()):
            if k != "$R" and k in other:
                if other[k] is not env[k]:
                    v = self.join(env[k], other[k])
                    if v is None:
                        del env[k]
                    else:
                        env[k] = v
        for k in other:
            if k not in env:
                env[k] = other[k]

    def assign(self, act, e, lhs, v, env):
        l = strip(lhs)
        if l[0] == "var":
            if isinstance(v, tuple) and v[0] == "ext":
                self.bind_ext(act, e, v[1], act.f.types[l[2]])
                return
            if self.isg(act.f, l[2]):
                if v is None:
                    v = nd(DYN())
                elif v[0] == "null":
                    v = nd(TV())
                elif v == ("spine", 0) and "$R" in env:
                    v = nd(env["$R"])
            if l[4] in ("l", "p"):
                if isinstance(v, tuple) and v[0] == "null":
                    v = None
                if v is None:
                    env.pop(l[3], None)
                else:
                    env[l[3]] = v
            return
        if l[0] == "un" and l[3] == "*":
            p = self.ev(act, l[4], env)
            if isinstance(p, tuple) and p[0] == "ref":
                if isinstance(v, tuple) and v[0] == "null":
                    v = nd(TV())
                if isinstance(v, tuple) and v[0] in ("nd", "spine"):
                    p[2][p[1]] = v
            return
        for s in subexprs(l):
            self.ev(act, s, env)

    def arg(self, k):
        """k-th argument from the right"""
        n = len(self.args)
        if k >= n:
            return None
        return nd(self.args[n - 1 - k], self.lv[n - 1 - k])

    def store(self, act, e, target, con, what, env):
        """a node is overwritten with a value of type con (a TV)"""
        v = self.ev(act, target, env)
        self.nops += 1
        if isinstance(v, tuple) and v[0] == "spine":
            if v[1] == 0:
                env["$R"] = con
            return
        t = self.tv(v, env)
        if t is None:
            return
        m = self.T.tr.mark()
        try:
            self.T.unify(t, con)
        except Clash as x:
            self.T.tr.undo(m)
            # rewritten in place
            r = find(t)
            if r.con in ATOM and find(con).con in ATOM and not any(find(a) is r for a in self.args):
                r.dyn = True
                return
            self.clash(act, e, "stores %s: %s" % (what, x))

    def call(self, act, e, env):
        n = callee(e)
        a = e[4]
        T = self.T
        if n is None:
            c = strip(e[3])
            if c[0] == "un" and c[3] == "*":
                c = strip(c[4])
            v = self.ev(act, c, env)
            if isinstance(v, tuple) and v[0] == "fun":
                n = v[1]
            else:
                for x in a:
                    self.ev(act, x, env)
                return nd(DYN()) if self.isg(act.f, e[2]) else None
        if n == "f_GET_APPLY_RIGHT" or n == "f_GET_APPLY_LEFT":
            v = self.ev(act, a[0], env)
            if isinstance(v, tuple) and v[0] == "spine":
                self.reached = max(self.reached, v[1] + (1 if n.endswith("RIGHT") else 0))
                if n.endswith("RIGHT"):
                    t = self.arg(v[1])
                    if t is None:
                        self.clash(act, e, "takes argument %d from the right, but the built-in has %d" % (v[1] + 1, len(self.args)), "arity")
                        return nd(DYN())
                    self.used[len(self.args) - 1 - v[1]].add(e[1])
                    return t
                return ("spine", v[1] + 1)
            return nd(DYN())
        if n in ("f_GET_CONS_HD", "f_GET_CONS_TL"):
            t, lv = self.inspect(act, e, a[0], env)
            self.nops += 1
            lv2 = HDL[lv] if n.endswith("HD") else TLL[lv]
            try:
                c = T.cell(t)
            except Clash as x:
                self.clash(act, e, str(x))
                return nd(DYN())
            if c is None:
                return nd(DYN(), lv2)
            return nd(c[0] if n.endswith("HD") else c[1], lv2)
        if n in GETLEAF:
            t, lv = self.inspect(act, e, a[0], env)
            self.need(act, e, t, GETLEAF[n])
            return None
        if n == "VX_GETP":
            kind = a[0][3] if a[0][0] == "str" else ""
            t, lv = self.inspect(act, e, a[1], env)
            if kind == "EXT_OBJ":
                return ("ext", t)
            return None
        if n == "VX_IS":
            kind = a[0][3]
            v = self.ev(act, a[1], env)
            if kind == "NIL":
                t, lv = self.inspect(act, e, a[1], env)
                self.nops += 1
                try:
                    T.unify(t, TV("list", (TV(),)))
                except Clash as x:
                    self.clash(act, e, "tested for the empty list: %s" % x)
            elif kind in ("INT", "STRING", "BOOL", "BEXPR", "CONS", "LEAF", "EXT_OBJ"):
                # dynamic inspection: the code decides by itself
                x = strip(a[1])
                if x[0] == "var" and x[3] in env and env[x[3]][0] == "nd":
                    r = find(env[x[3]][1])
                    if r.con is None and r.hd is None:
                        env[x[3]] = nd(DYN(), env[x[3]][2])
            return None
        if n in MKREDEX:
            for x in a[1:]:
                self.ev(act, x, env)
            self.store(act, e, a[0], tcon(MKREDEX[n]), "a " + MKREDEX[n], env)
            return None
        if n == "VX_MK_NIL":
            self.store(act, e, a[0], TV("list", (TV(),)), "the empty list", env)
            return None
        if n == "VX_MK_CONS":
            h = self.node_arg(act, a[1], env)
            tl = self.node_arg(act, a[2], env)
            c = TV()
            c.hd, c.tl = h, tl
            self.store(act, e, a[0], c, "a cell", env)
            return None
        if n == "VX_MK_EXT_OBJ":
            self.ev(act, a[2], env)
            cls = strip(a[1])
            nm = self.ext_of_class.get(cls[3]) if cls[0] == "var" else None
            if nm:
                self.store(act, e, a[0], TV(nm), "an object of class " + nm, env)
                p = a[2]
                while p[0] == "cast" and act.f.types[p[2]] in ("void *", "pointer"):
                    p = p[3]
                if isinstance(p[2], int) and p[0] in ("var", "call", "mem", "cast", "un", "idx"):
                    ct = act.f.types[p[2]].replace("const ", "").strip()
                    m = self.ext_of_ctype.get(ct)
                    if m and m != nm:
                        self.clash(act, e, "object of C type %s given the class of %s" % (ct, nm))
            else:
                self.store(act, e, a[0], DYN(), "", env)
            return None
        if n in ("VX_MK_FAILURE", "VX_MK_APPL", "VX_MK_PRIM_FN", "VX_MK_EXTAPI", "VX_MK_LAMBDA", "VX_MK_VAR", "VX_MK_USERDEF",
                 "VX_MK_IO_PTR", "VX_MK_REF_VAR"):
            for x in a[1:]:
                self.ev(act, x, env)
            v = self.ev(act, a[0], env)
            if v == ("spine", 0):
                env["$R"] = DYN()
            return None
        if n == "VX_SETG":
            kind = a[0][3]
            t = self.node_arg(act, a[1], env)
            v = self.node_arg(act, a[2], env)
            if kind in ("CONS_HD", "CONS_TL"):
                self.nops += 1
                try:
                    c = T.cell(t)
                    if c is not None:
                        T.unify(c[0] if kind == "CONS_HD" else c[1], v)
                except Clash as x:
                    self.clash(act, e, "element stored: %s" % x)
            return None
        if n == "VX_SETP":
            kind = a[0][3]
            self.ev(act, a[2], env)
            k2 = {"BEXPR": "bexpr", "AINT": "int", "STRING": "string"}.get(kind)
            if k2:
                self.store(act, e, a[1], tcon(k2), "a " + k2, env)
            return None
        if n == "VX_SETF":
            for x in a[1:]:
                self.ev(act, x, env)
            if a[0][3] in ("PRIM_FN",) and self.ev(act, a[1], env) == ("spine", 0):
                env["$R"] = DYN()
            return None
        if n == "VX_OVERWRITE":
            v = self.ev(act, a[1], env)
            t = self.tv(v, env)
            self.store(act, e, a[0], t if t is not None else DYN(), "a value", env)
            return None
        if n in MAKELEAF:
            for x in a:
                self.ev(act, x, env)
            if n == "Make_STRING_leaf":
                x = strip(a[0])
                if x[0] == "var" and x[4] in ("g", "s"):
                    t = tcon("string")
                    t.isnil = "ctor"
                    return nd(t)
            return nd(tcon(MAKELEAF[n]))
        if n == "Make_NIL":
            return nd(TV("list", (TV(),)))
        if n in ("Make_CONS_ND",):
            h = self.node_arg(act, a[0], env)
            t = self.node_arg(act, a[1], env)
            hh = find(h)
            if (hh.con == "string" and hh.isnil == "ctor") or hh.con == "adt:":
                # a constructor applied to arguments: a concrete type
                return nd(TV("adt:"))
            c = TV()
            c.hd, c.tl = h, t
            return nd(c)
        if n == "Make_PAIR_ND":
            return nd(TV("pair", (self.node_arg(act, a[0], env), self.node_arg(act, a[1], env))))
        if n == "Make_SINGLETON":
            return nd(TV("list", (self.node_arg(act, a[0], env),)))
        if n in ("List_length", "List_element"):
            t, lv = self.inspect(act, e, a[0], env)
            if lv in ("U", "W"):
                self.clash(act, e, "walks a list whose cells have not been evaluated", "lazy")
            el = TV()
            try:
                T.unify(t, TV("list", (el,)))
            except Clash as x:
                self.clash(act, e, str(x))
            for x in a[1:]:
                self.ev(act, x, env)
            return nd(el, HDL[lv]) if n == "List_element" else None
        if n == "G_append":
            l1 = self.node_arg(act, a[0], env)
            l2 = self.node_arg(act, a[1], env)
            try:
                T.unify(l1, TV("list", (TV(),)))
                T.unify(l1, l2)
            except Clash as x:
                self.clash(act, e, str(x))
            return nd(l1)
        if n in EVALS:
            v = self.ev(act, a[0], env)
            for x in a[1:]:
                self.ev(act, x, env)
            if isinstance(v, tuple) and v[0] == "nd":
                lv = EVALS[n] if LV[v[2]] < LV[EVALS[n]] else v[2]
                r = nd(v[1], lv)
                x = strip(a[0])
                if x[0] == "var" and x[4] in ("l", "p"):
                    env[x[3]] = r
                return r
            return v
        if n in SAME:
            v = self.ev(act, a[0], env)
            for x in a[1:]:
                self.ev(act, x, env)
            return v
        if n == "VX_GETF" and a[0][3] == "TYPE":
            # the shape of the graph itself is inspected: the code decides
            x = strip(a[1])
            self.ev(act, x, env)
            if x[0] == "var" and x[3] in env and env[x[3]][0] == "nd":
                env[x[3]] = nd(DYN())
            return None
        if n in FRESH or n in IGNORE:
            for x in a:
                self.ev(act, x, env)
            return nd(TV()) if n in FRESH else None
        vals = [self.ev(act, x, env) for x in a]
        g = self.P.funcs.get(n)
        isg = self.isg(act.f, e[2])
        interesting = isg or any(isinstance(v, tuple) and v[0] in ("nd", "spine", "ref", "ext") for v in vals)
        if g is None or not interesting:
            return nd(DYN()) if isg else None
        # recursion: same types as the outer activation
        x = act
        while x is not None:
            if x.f is g:
                if x.params is not None:
                    for v, w in zip(vals, x.params):
                        tv, tw = self.tv(v), self.tv(w)
                        if tv is not None and tw is not None and tv is not tw:
                            self.T.try_unify(tv, tw)
                if x.ret is None and isg:
                    x.ret = nd(TV())
                return x.ret if isg else None
            x = x.up
        if act.depth >= MAXD:
            return nd(DYN()) if isg else None
        na = Inline(g, act)
        na.params = vals
        self.funcs.add(g.name)
        self.depthmax = max(self.depthmax, na.depth)
        ne = Env()
        if "$R" in env:
            ne["$R"] = env["$R"]
        for p, v in zip(g.params, vals):
            pn, pt = p[0], p[1]
            if isinstance(v, tuple) and v[0] == "ext":
                self.bind_ext(act, e, v[1], g.types[pt])
                continue
            if isinstance(v, tuple) and v[0] == "null":
                v = nd(TV()) if self.isg(g, pt) else None
            if v is None and self.isg(g, pt):
                v = nd(DYN())
            if isinstance(v, tuple) and v[0] in ("nd", "spine") and not self.isg(g, pt):
                continue
            if v is not None and v[0] == "nd" and pn in self.inspected(g):
                v = nd(DYN())
            if v is not None:
                ne[pn] = v
        if self.stmt(na, g.body, ne):
            na.retR = self.joinR(na.retR, ne.get("$R"))
        if na.retR is not None:
            env["$R"] = na.retR
        if not isg:
            if isinstance(na.ret, tuple) and na.ret[0] == "ext":
                return na.ret
            return None
        r = na.ret
        return r if r is not None else nd(DYN())

    def inspected(self, g):
        """parameters whose graph representation the function takes apart by
        itself, whatever their type"""
        r = self.insp.get(g.name)
        if r is None:
            r = self.insp[g.name] = set()
            for c in calls_of(g):
                if callee(c) == "VX_GETF" and c[4][0][3] == "TYPE":
                    x = strip(c[4][1])
                    if x[0] == "var" and x[4] == "p":
                        r.add(x[3])
        return r

    # ---- statements: returns True when the end is reachable ----
    def stmt(self, act, s, env):
        if s is None:
            return True
        k = s[0]
        if k == "block":
            ok = True
            for c in s[2]:
                if not ok and c[0] not in ("label", "case", "default", "block", "switch"):
                    if not any(x[0] == "label" for x in stmts(c)):
                        continue
                ok = self.stmt(act, c, env)
            return ok
        if k == "expr":
            self.ev(act, s[2], env)
            return not (s[2][0] == "call" and callee(s[2]) in self.P.noret)
        if k == "decl":
            for d in s[2]:
                if d[2] is not None:
                    v = self.ev(act, d[2], env)
                    self.assign(act, d[2], ["var", s[1], d[1], d[0], "l"], v, env)
                else:
                    env.pop(d[0], None)
            return True
        if k == "if":
            self.ev(act, s[2], env)
            e2 = self.fork(env)
            self.refine(s[2], env, True)
            self.refine(s[2], e2, False)
            a = self.stmt(act, s[3], env)
            b = self.stmt(act, s[4], e2) if s[4] else True
            if a and b:
                self.merge(env, e2)
            elif b:
                env.clear()
                env.update(e2)
            return a or b
        if k in ("while", "for", "do"):
            if k == "for":
                self.stmt(act, s[2], env)
                cond, inc, body = s[3], s[4], s[5]
            elif k == "while":
                cond, inc, body = s[2], None, s[3]
            else:
                cond, inc, body = s[3], None, s[2]
            if k == "do":
                self.stmt(act, body, env)
                if cond:
                    self.ev(act, cond, env)
            else:
                if cond:
                    self.ev(act, cond, env)
                for _ in range(2):
                    e2 = self.fork(env)
                    if cond:
                        self.refine(cond, e2, True)
                    self.stmt(act, body, e2)
                    if inc:
                        self.ev(act, inc, e2)
                    self.merge(env, e2)
                    if cond:
                        self.ev(act, cond, env)
            return True
        if k == "switch":
            self.ev(act, s[2], env)
            base = self.fork(env)
            out = []
            body = s[3]
            items = body[2] if body and body[0] == "block" else [body]
            has_def = False
            cur = None
            flat = []
            for c in items:
                while c is not None and c[0] in ("case", "default"):
                    flat.append(("L", c))
                    if c[0] == "default":
                        has_def = True
                        c = c[2]
                    else:
                        c = c[4]
                if c is not None:
                    flat.append(("S", c))
            # a switch over representations: most arms cannot fit one type.
            nclash = nfit = 0
            alive = False
            saved_items = list(self.rep.items)
            arm_items = []
            ops0 = self.nops
            cl0 = len(self.rep.items)

            def close():
                nonlocal nclash, nfit, ops0, cl0
                if len(self.rep.items) > cl0:
                    nclash += 1
                elif self.nops > ops0:
                    nfit += 1
                ops0, cl0 = self.nops, len(self.rep.items)
            started = False
            for kind, c in flat:
                if kind == "L":
                    if not alive:
                        if started:
                            close()
                        started = True
                        cur = self.fork(base)
                        alive = True
                    else:
                        self.merge(cur, base)
                    continue
                if not alive:
                    continue
                if c[0] == "break":
                    out.append(cur)
                    alive = False
                    continue
                r = self.stmt(act, c, cur)
                if not r:
                    if any(x[0] == "break" for x in stmts(c)):
                        out.append(cur)
                    alive = False
                elif any(x[0] == "break" for x in stmts(c)):
                    out.append(self.fork(cur))
                    if c[0] == "block" and c[2] and c[2][-1][0] == "break":
                        alive = False
            close()
            if nclash >= 2 and nfit >= 1:
                self.rep.items = saved_items
            if alive:
                out.append(cur)
            if not has_def:
                out.append(base)
            if not out:
                return False
            env.clear()
            env.update(out[0])
            for o in out[1:]:
                self.merge(env, o)
            return True
        if k in ("case", "default"):
            return self.stmt(act, s[4] if k == "case" else s[2], env)
        if k == "label":
            g = act.gotos.get(s[2])
            if g is not None:
                self.merge(env, g)
            act.gotos[s[2]] = self.fork(env)
            return self.stmt(act, s[3], env)
        if k == "goto":
            g = act.gotos.get(s[2])
            if g is None:
                act.gotos[s[2]] = self.fork(env)
            else:
                self.merge(g, env)
            return False
        if k == "ret":
            v = None
            if s[2] is not None:
                v = self.ev(act, s[2], env)
                if isinstance(v, tuple) and v[0] == "null":
                    v = None
                if v is not None:
                    act.ret = v if act.ret is None else self.join(act.ret, v)
            if act.up is None:
                self.at_return(act, env, s[1])
            else:
                act.retR = self.joinR(act.retR, env.get("$R"))
            return False
        return True


# ---- declared types ----
def gl_type(P, f, e, env, tyvars, seen=0):
    """evaluate a GLmake_* expression to a TV (rigid)"""
    e = strip(e)
    if seen > 40 or e is None:
        return None
    if e[0] == "call":
        n = callee(e)
        a = e[4]
        sub = lambda i: gl_type(P, f, a[i], env, tyvars, seen + 1)
        if n == "GLmake_arrow":
            return TV("arrow", (sub(0) or DYN(), sub(1) or DYN()))
        if n == "GLmake_tuple":
            return TV("pair", (sub(0) or DYN(), sub(1) or DYN()))
        if n == "GLmake_list":
            return TV("list", (sub(0) or DYN(),))
        if n in ("GLmake_bool", "GLmake_bexpr", "GLmake_int", "GLmake_string", "GLmake_void"):
            return TV(n[7:])
        if n == "GLmake_ref":
            return TV("adt:ref")
        if n == "GLmake_tbl":
            return TV("tbl")
        if n == "GLnew_tVar":
            return DYN()
        if n == "Get_Type" and a[0][0] == "str":
            return TV("adt:" + a[0][3])
        g = P.funcs.get(n)
        if g is not None:
            # a helper that returns a type
            rets = [s for s in stmts(g.body) if s[0] == "ret" and s[2]]
            if len(rets) == 1:
                ne = {p[0]: x for p, x in zip(g.params, [gl_type(P, f, y, env, tyvars, seen + 1) for y in a])}
                return gl_type(P, g, rets[0][2], local_types(P, g, ne), tyvars, seen + 1)
        return None
    if e[0] == "var":
        v = env.get(e[3])
        if v is not None:
            return v
        if e[4] in ("g", "s"):
            return tyvars.get(e[3])
    if e[0] == "bin" and e[3] == "=":
        return gl_type(P, f, e[5], env, tyvars, seen + 1)
    return None


def local_types(P, f, env):
    return env


class Builtin:
    __slots__ = ("name", "strict", "args", "res", "fn", "line", "file", "inst", "arity_ok", "tp")


def builtins(P):
    """every Add_ExtAPI_Function registration, with its declared type"""
    gl = {}
    # globals of type typeExp_ptr assigned once
    for f in P.funcs.values():
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] in ("g", "s"):
                r = strip(e[5])
                if r[0] == "call" and callee(r) == "Get_Type" and r[4][0][0] == "str":
                    gl[strip(e[4])[3]] = TV("adt:" + r[4][0][3])
    out = []
    for f in P.funcs.values():
        if not any(callee(c) == "Add_ExtAPI_Function" for c in calls_of(f)):
            continue
        env = {}
        for s in stmts(f.body):
            if s[0] == "decl":
                for d in s[2]:
                    if d[2] is not None and f.types[d[1]] == "typeExp_ptr":
                        v = gl_type(P, f, d[2], env, gl)
                        if v is not None:
                            env[d[0]] = v
            elif s[0] == "expr":
                e = strip(s[2])
                if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] in ("l", "p"):
                    v = gl_type(P, f, e[5], env, gl)
                    if v is not None:
                        env[strip(e[4])[3]] = v
                if e[0] == "call" and callee(e) == "Add_ExtAPI_Function":
                    b = Builtin()
                    a = e[4]
                    b.inst = f
                    b.line, b.file = e[1], f.file
                    b.name = strip(a[0])[3] if strip(a[0])[0] == "str" else None
                    b.strict = strip(a[1])[3] if strip(a[1])[0] == "str" else None
                    b.tp = gl_type(P, f, a[3], env, gl)
                    fn = strip(a[4])
                    if fn[0] == "un" and fn[3] == "&":
                        fn = strip(fn[4])
                    b.fn = fn[3] if fn[0] == "fn" else None
                    b.args = []
                    b.arity_ok = True
                    t = b.tp
                    if b.strict is not None and t is not None:
                        for _ in b.strict:
                            if t.con != "arrow":
                                b.arity_ok = False
                                break
                            b.args.append(t.args[0])
                            t = t.args[1]
                        b.res = t
                    out.append(b)
    return out
