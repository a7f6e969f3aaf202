"""How word expressions become simulator operations: the operation chosen for
each constructor, its size and argument, and the order its inputs are laid
out in."""
from .gates import *

# constructor -> (operation, size, inputs in order [(operand, size)], argument fields)
# operands are the output arguments of the is_W_x recogniser, counted from 1
OUTN = ("outs",)
NAMES = {"W_AND": "op_AND", "W_OR": "op_OR", "W_ADD": "op_ADD", "W_SUB": "op_SUB", "W_MUL": "op_MUL", "W_DIV": "op_DIV", "W_MOD": "op_MOD",
         "W_SHL": "op_SHL", "W_SHR": "op_SHR", "W_ASHR": "op_ASHR", "W_LAT_LEQ": "op_LAT_LEQ", "W_EQ": "op_EQ", "W_GR": "op_GR"}


class Lists:
    pass


def val(k):
    return ("w", k)


def size_of(t):
    return S(("wsize", t))


osz = S(("lsize", ("sym", "outs")))
SHAPES = {
    "is_W_VAR": ("op_WIRE", S(val(1)), None, {}),
    "is_W_EXPLICIT_VAR": ("op_WIRE", S(val(1)), None, {}),
    "is_W_X": ("op_X", S(val(1)), [], {}),
    "is_W_CONST": ("op_CONST", S(val(1)), [], {"arg.value": ("sym", val(2))}),
    "is_W_NAMED_CONST": ("op_CONST", S(val(2)), [], {"arg.value": ("sym", val(3))}),
    "is_binary_wexpr": (("sym", val(1)), osz, [(val(2), osz), (val(3), osz)], {}),
    "is_relation_wexpr": (("sym", val(1)), P(1), [(val(2), size_of(val(2))), (val(3), size_of(val(2)))], {"arg.extension_size": ("int", size_of(val(2)))}),
    "is_W_NOT": ("op_NOT", osz, [(val(1), osz)], {}),
    "is_W_SX": ("op_SX", S(val(1)), [(val(2), size_of(val(2)))], {"arg.extension_size": ("int", size_of(val(2)))}),
    "is_W_ZX": ("op_ZX", S(val(1)), [(val(2), size_of(val(2)))], {"arg.extension_size": ("int", size_of(val(2)))}),
    "is_W_ITE": ("op_ITE", osz, [(val(1), P(1)), (val(2), osz), (val(3), osz)], {}),
    "is_W_MEM_READ": ("op_MEM_READ", S(val(3)), [(val(5), S(val(1))), (val(4), S(val(2)) * S(val(3)))],
                      {"arg.mem.addr_size": ("int", S(val(1))), "arg.mem.lines": ("int", S(val(2))), "arg.mem.data_size": ("int", S(val(3)))}),
    "is_W_MEM_WRITE": ("op_MEM_WRITE", S(val(2)) * S(val(3)), [(val(5), S(val(1))), (val(6), S(val(3))), (val(4), S(val(2)) * S(val(3)))],
                       {"arg.mem.addr_size": ("int", S(val(1))), "arg.mem.lines": ("int", S(val(2))), "arg.mem.data_size": ("int", S(val(3)))}),
}


class Compile(Rails):
    def __init__(self, prog, f, which):
        self.which = which
        self.events = []
        H = {"make_input_arg": self.h_input, "compute_ilist_length": self.h_len, "get_wexpr_size": self.h_size, "add_fanouts": self.h_fan,
             "push_buf": self.h_push, "FP": nop, "map_vector": self.h_map, "mk_vec_name": opaque, "compile_expr": opaque_int, "report_source_locations": nop,
             "Rprintf": nop, "wastrsave": opaque, "DIE": dead, "fprintf": nop, "fflush": nop, "exit": dead, "abort": dead, "__assert_fail": dead}
        super().__init__(prog, {}, H)
        self.f = f
        st = State()
        for p in f.params:
            n = p[0] if isinstance(p, (list, tuple)) else p
            sh = re.sub(r"[#@].*", "", n)
            st.env[n] = ("sym", "outs") if self.is_outs(f, n) else ("sym", ("param", sh))
        self.outs_name = None
        self.final = [o for o in self.run(f.body, [st]) if o.ret is not None]

    def is_outs(self, f, n):
        return re.sub(r"[#@].*", "", n) == "outs"

    def call(self, st, e):
        c = strip(e[3])
        name = re.sub(r"[#@].*", "", c[3]) if c[0] in ("var", "fn") else None
        if name and name.startswith("is_") and (name.startswith("is_W_") or name.endswith("_wexpr")):
            if name != self.which:
                return ("bool", ZERO)
            for i, a in enumerate(e[4][1:], 1):
                a = strip(a)
                lv = self.lval(st, strip(a[4])) if a[0] == "un" and a[3] == "&" else None
                if lv is None:
                    raise Unsupported("operand of " + name)
                t = val(i)
                ty = self.tyof(strip(a[4]))
                self.store(st, lv, ("int", S(t)) if ty in INTS else ("sym", t))
            return ("bool", ONE)
        return super().call(st, e)

    def note(self, st, x):
        st.calls = st.calls + (x,)

    def args(self, st, e):
        return [self.ev(st, a) for a in e[4]]

    def h_input(self, R, st, e):
        a = self.args(st, e)
        self.note(st, ("input", a[0], a[1], a[-1]))
        self.uid += 1
        l = ("list", self.uid)
        st.env[("segs", l)] = ("sym", ((a[0][1], a[1][1]),))
        return ("sym", l)

    def h_map(self, R, st, e):
        self.args(st, e)
        self.uid += 1
        l = ("list", self.uid)
        st.env[("segs", l)] = ("sym", (("mapped",),))
        return ("sym", l)

    def h_len(self, R, st, e):
        return ("int", S(("lsize", self.args(st, e)[0])))

    def h_size(self, R, st, e):
        v = self.args(st, e)[0]
        return ("int", S(("wsize", v[1])))

    def h_fan(self, R, st, e):
        a = self.args(st, e)
        self.note(st, ("fan", a[0], a[1]))
        return ("void",)

    def h_push(self, R, st, e):
        x = e[4][1]
        while x[0] == "cast":
            x = x[3]
        v = self.ev(st, x)
        b = self.ev(st, e[4][0])
        rec = dict(self.load(st, ("v", v[1]), "")[1]) if v[0] == "addr" else None
        if rec is not None:
            st.env["@rec"] = ("sym", "pushed")
            for k, x in rec.items():
                st.env[("rec", k)] = x
            rec = tuple(sorted(rec))
            # the record just added is the one at the index the buffer had
            self.note(st, ("push", b, rec))
        return ("void",)

    # lists: "while( l->next != NULL ) l = l->next" leaves l at the end of its list
    def loop(self, st, s):
        if s[0] == "while":
            c = strip(s[2])
            if c[0] == "bin" and c[3] == "!=" and self.isnull(c[5]):
                c = strip(c[4])
            b = s[3]
            while b[0] == "block" and len(b[2]) == 1:
                b = b[2][0]
            if c[0] == "mem" and c[4] == "next" and b[0] == "expr":
                a = strip(b[2])
                if a[0] == "bin" and a[3] == "=" and strip(a[4])[0] == "var" and strip(a[5])[0] == "mem" and strip(a[5])[4] == "next" and strip(strip(a[5])[3]) [3:] == strip(a[4])[3:]:
                    v = self.load(st, self.lval(st, a[4]), "")
                    if v[0] == "sym" and v[1][0] in ("list", "last"):
                        self.store(st, self.lval(st, a[4]), ("sym", ("last", v[1] if v[1][0] == "list" else v[1][1])))
                        return [st]
        return super().loop(st, s)

    def isnull(self, e):
        e = strip(e)
        while e[0] == "cast":
            e = strip(e[3])
        return e[0] == "int" and e[3] == 0

    def store(self, st, lv, v):
        if lv[0] == "f" and isinstance(lv[1], tuple) and lv[1][0] == "fld" and lv[1][2] == "next" and isinstance(lv[1][1], tuple) and lv[1][1][0] in ("last", "list"):
            q = lv[1][1]
            if q[0] != "last" or v[0] != "sym" or v[1][0] != "list":
                raise Unsupported("list")
            st.env[("segs", q[1])] = ("sym", st.env[("segs", q[1])][1] + st.env[("segs", v[1])][1])
            return
        super().store(st, lv, v)


def compile_checks(prog, f):
    """[(which, problem or None)]"""
    out = []
    for which, (op, size, ins, fields) in SHAPES.items():
        try:
            C = Compile(prog, f, which)
            out.append((which, check_shape(C, op, size, ins, fields)))
        except Unsupported as x:
            out.append((which, ("?", str(x))))
    return out


def dead(R, st, e):
    st.ret = ("dead",)
    return ("int", P(0))


def listof(env, v):
    if v is None:
        return None
    if v[0] == "int" and v[1] == P(0):
        return ()
    if v[0] == "sym" and v[1][0] == "list":
        return env[("segs", v[1])][1]
    if v[0] == "sym" and v[1][0] == "last":
        return ("last", v[1])
    raise Unsupported("inputs")


def check_shape(C, op, size, ins, fields):
    """what is wrong with the operation made for one constructor, or None"""
    n = 0
    for o in C.final:
        if o.ret == ("dead",) or o.ret == ("int", P(0)) or o.ret == ("bool", ZERO):
            continue
        n += 1
        env = o.env
        ev_ = o.calls
        push = [i for i, e in enumerate(ev_) if e[0] == "push"]
        if len(push) != 1:
            return "makes %d operations" % len(push)
        rec = {k[1]: v for k, v in env.items() if isinstance(k, tuple) and k[0] == "rec"}
        idx = ("int", S(("fld", ev_[push[0]][1][1], "buf_size")))
        for k, v in list(env.items()):
            # later changes through the pointer to the record
            if isinstance(k, tuple) and k[0] == "f" and k[1][0] == "fld" and not isinstance(k[1][1], str):
                pth, b = [], k[1]
                while isinstance(b, tuple) and b[0] == "fld":
                    pth.insert(0, b[2])
                    b = b[1]
                at = ("fld", ev_[push[0]][1][1], "start")
                rec[".".join(pth)] = v
        want = ("sym", ("fn", op)) if isinstance(op, str) else op
        got = rec.get("op")
        if got is None or (got != want and not (got[0] == "sym" and got[1][0] == "fn" and re.sub("[@#].*", "", got[1][1]) == op)):
            return "the operation is %s" % (got,)
        if rec.get("size") != ("int", size):
            return "the size is %s, not %s" % (rec.get("size"), size)
        if rec.get("outs") != ("sym", "outs"):
            return "the outputs are not those given"
        if rec.get("phase_delay") is None or rec["phase_delay"][0] != "sym" or rec["phase_delay"][1][0] != "param":
            return "the phase delay is not the one asked for"
        for k in ("rank", "flag", "no_weakening"):
            if k not in rec:
                return "the field %s is not set" % k
            if rec[k] != ("int", P(0)):
                return "the field %s does not start as 0" % k
        for k, v in fields.items():
            if rec.get(k) != v:
                return "the field %s is %s" % (k, rec.get(k))
        inp = listof(env, rec.get("inps"))
        if inp is None:
            return "the inputs are not set"
        fans = [e for e in ev_ if e[0] == "fan"]
        if ins is not None:
            exp = tuple(ins)
            if tuple(inp) != exp and not empties(o.guard, inp, exp):
                return "the inputs are %s, not %s" % (inp, exp)
            if any(e[0] == "input" for e in ev_[:push[0]]):
                return "an operand is compiled before the operation has its place"
        if inp and not any(f[2] == idx and listof(env, f[1]) == inp for f in fans):
            return "the nodes it depends on do not all list it as a fanout"
        if any(f[2] != idx for f in fans):
            return "fanouts are recorded for another operation"
    if not n:
        raise Unsupported("no path")
    return None


def empties(g, inp, exp):
    """on a path on which an operand has no nodes, its part is missing"""
    nulls = [a for a in atoms(g) if a[0] == "same" and ("null",) in a]
    if not nulls:
        return False
    rest = [x for x in exp if x not in inp]
    return len(rest) <= len(nulls) and tuple(x for x in exp if x in inp) == tuple(inp)
