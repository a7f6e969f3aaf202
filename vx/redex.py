"""Typestate of the redex inside the C implementation of a built-in: it is
overwritten with a result on every path that returns, its operands are not
fetched again afterwards, and what is released is released once and not used
afterwards."""
from .facts import *
from .paths import PathFlow, modsets

WR = {"VX_MK_APPL", "VX_MK_CONS", "VX_MK_NIL", "VX_MK_VOID", "VX_MK_BOOL", "VX_MK_BEXPR", "VX_MK_AINT", "VX_MK_INT",
      "VX_MK_STRING", "VX_MK_VAR", "VX_MK_LAMBDA", "VX_MK_USERDEF", "VX_MK_PRIM_FN", "VX_MK_EXTAPI", "VX_MK_EXT_OBJ",
      "VX_MK_IO_PTR", "VX_MK_FAILURE", "VX_MK_REF_VAR", "VX_OVERWRITE"}
SETS = {"VX_SETF", "VX_SETP", "VX_SETG"}


def isg(f, ti):
    return isinstance(ti, int) and f.types[ti].replace("const ", "").strip() in ("g_ptr", "struct node_rec *", "node_ptr")



class RedexFlow(PathFlow):
    """client state: (overwritten?, names of the redex)"""

    def __init__(self, P, f, an, stack, report):
        super().__init__(P, f)
        self.an, self.stack, self.report = an, stack, report

    def alias(self, e, al):
        e = strip(e)
        return e is not None and e[0] == "var" and e[3] in al

    def decl(self, name, ti, init, c):
        w, al = c
        if isg(self.f, ti):
            al = al | {name} if init is not None and self.alias(init, al) else al - {name}
        return (w, al)

    def event(self, x, c):
        w, al = c
        if x[0] == "bin" and x[3] == "=":
            l = strip(x[4])
            if l[0] == "var" and isg(self.f, l[2]):
                al = al | {l[3]} if self.alias(x[5], al) else al - {l[3]}
            return (w, al)
        if x[0] != "call":
            return c
        n, a = callee(x), x[4]
        if n in WR:
            if self.alias(a[0], al):
                w = True
        elif n in SETS:
            if len(a) > 1 and self.alias(a[1], al) and a[0][3] in ("TYPE", "CONS_HD", "PRIM_FN", "APPLY_LEFT"):
                w = True
        elif n in ("f_GET_APPLY_LEFT", "f_GET_APPLY_RIGHT"):
            if self.report is not None and w and self.alias(a[0], al):
                self.report(x[1], "fetch", "operand fetched (%s) after the redex has been overwritten" % show(x))
        elif n is not None and n in self.P.funcs:
            if not w:
                for j, y in enumerate(a):
                    if self.alias(y, al) and all(self.an.writes(self.P.funcs[n], j, self.stack)):
                        w = True
        elif n is None:
            if any(self.alias(y, al) for y in a):
                w = True        # through a pointer: assumed to follow the protocol
        return (w, al)

    def split(self, call, c):
        n, a = callee(call), call[4]
        w, al = c
        if w or n not in self.P.funcs:
            return None
        for j, y in enumerate(a):
            if self.alias(y, al):
                t, f = self.an.writes(self.P.funcs[n], j, self.stack)
                if t != f:
                    return (t, al), (f, al)
        return None


class Redex:
    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.nret = 0

    def writes(self, g, i, stack=()):
        """(overwrites parameter i whenever it returns true, ... false)"""
        k = (g.name, i)
        if k in self.sum:
            return self.sum[k]
        if k in stack:
            return (True, True)
        if i >= len(g.params) or not isg(g, g.params[i][1]):
            return (False, False)
        r = self.sum[k] = self.analyse(g, i, stack + (k,), None)
        return r

    def analyse(self, f, i, stack=(), report=None):
        fl = RedexFlow(self.P, f, self, stack, report)
        t = fa = True
        for n, st, c, v in fl.run((False, frozenset([f.params[i][0]]))):
            self.nret += 1
            if not c[0]:
                if v is None or v == "nz" or v:
                    t = False
                if v is None or v == 0:
                    fa = False
                if report is not None:
                    p = fl.flow.path(n.id, st)
                    report(n.line, "noresult", "returns without having stored a result; path through lines %s" % ",".join(map(str, p[-12:])))
        return (t, fa)
