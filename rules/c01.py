"""Built-in functions honour their declared interface."""
from vx.gtypes import *
from vx.redex import Redex
from vx import facts
import collections

EXPLAIN = """
For every function registered with the language (name, strictness string, declared type, C implementation) the declared
type is evaluated from the registration call itself, and the C implementation is type-checked against it: every node
value in the implementation and, in the calling context, in every helper it passes nodes to, gets a type term; accessors
and constructors of graph nodes generate equations.  A path-correlated typestate analysis of the redex decides that a
result is stored on every path that returns and that no operand is fetched from the redex after it was overwritten.
"""
RULES = ["arity: the strictness string has one letter per declared argument, and no argument beyond them is fetched",
         "clash: every node is accessed at the type the declared type (and the values stored in it) gives it",
         "result: what is stored in the redex has the declared result type",
         "lazy: a value is looked into only as deep as the strictness letter (or an explicit evaluation) evaluated it",
         "noresult: every path that returns has overwritten the redex",
         "fetch: no operand is fetched from the redex after it was overwritten"]
ASSUME = ["functions registered from plugins or reached only through function pointers are outside the analysis",
          "values of polymorphic type, and values whose tags the code itself inspects, are unconstrained",
          "the graph accessor macros of graph.h are taken as primitive operations"]
# the fl type of each class of external objects (class name, fl type)
EXT = {"bev": "bev", "bv": "bv", "float_handle": "float", "fsm": "fsm", "ste": "ste", "vstate": "vis", "image": "image",
       "internal_search_state": "internal_search_state", "table": "tbl", "ubv": "ubv"}
# arguments that are units, or only selected by being present
UNUSED_OK = set()


def maps(P):
    cls = {}
    for f in P.funcs.values():
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[5])[0] == "call" and callee(strip(e[5])) == "Add_ExtAPI_Object":
                a = strip(e[5])[4]
                x = strip(a[0])
                if x[0] == "str" and strip(e[4])[0] == "var":
                    n = EXT.get(x[3])
                    if n:
                        cls[strip(e[4])[3]] = n if n == "tbl" else "adt:" + n
    ct = collections.defaultdict(collections.Counter)
    for f in P.funcs.values():
        for c in calls_of(f):
            if callee(c) == "VX_MK_EXT_OBJ":
                k = strip(c[4][1])
                p = c[4][2]
                while p[0] == "cast" and f.types[p[2]] in ("void *", "pointer"):
                    p = p[3]
                if k[0] == "var" and isinstance(p[2], int):
                    ct[f.types[p[2]]][cls.get(k[3], k[3])] += 1
    ctype = {k: v.most_common(1)[0][0] for k, v in ct.items() if k not in ("pointer", "void *", "int", "bool")}
    return cls, ctype


def infer(P, b, cls, ctype):
    I = Infer(P, cls, ctype)
    cp = I.T.copy(b.args + [b.res])
    I.builtin(P.funcs[b.fn], cp[:-1], b.strict, cp[-1])
    return I


def selftest(P, B, cls, ctype):
    """the engine must see a wrong declaration: swap in each of a few wrong ones"""
    by = {b.name: b for b in B}
    seen = 0
    for name, mut in (("firstn", "swap"), ("length", "res"), ("rev", "lazy"), ("append", "drop")):
        b = by.get(name)
        if b is None or b.fn not in P.funcs:
            continue
        c = Builtin()
        c.name, c.fn, c.args, c.res, c.strict = b.name, b.fn, list(b.args), b.res, b.strict
        if mut == "swap":
            c.args.reverse()
        elif mut == "res":
            c.res = TV("string")
        elif mut == "lazy":
            c.strict = "-" * len(c.strict)
        elif mut == "drop":
            c.args, c.strict = c.args[1:], c.strict[1:]
        if not infer(P, c, cls, ctype).rep.items:
            raise facts.AnalysisBroken("self-test: a wrong declaration of %s (%s) is not reported" % (name, mut))
        seen += 1
    return seen


def run(ctx):
    P = ctx.program("graph")
    B = builtins(P)
    cls, ctype = maps(P)
    ctx.count("object_classes", len(cls), 8)
    nb = nops = 0
    helpers = set()
    strictness = collections.Counter()
    R = Redex(P)
    seen = set()
    for b in B:
        if b.fn is None or b.fn not in P.funcs:
            continue                # plugin registrations: not known statically
        f = P.funcs[b.fn]
        if b.tp is None or b.strict is None:
            if b.strict is None:
                continue
            # a constant; its declared type is not a function type
            if b.strict != "":
                ctx.notes.append("%s: declared type not evaluated" % b.name)
            continue
        if not b.arity_ok:
            ctx.violation(b.file, b.line, "arity", b.name or "?", "strictness string \"%s\" has more letters than the declared type %s has arguments" % (b.strict, tshow(b.tp)))
            continue
        nb += 1
        strictness.update(b.strict)
        I = infer(P, b, cls, ctype)
        nops += I.nops
        helpers |= I.funcs
        for kind, fn, file, line, msg in I.rep.items:
            ctx.violation(file, line, kind, "%s:%s" % (b.name, fn.split("@")[0]),
                          "built-in %s, declared \"%s\" %s: %s" % (b.name, b.strict, tshow(b.tp), msg))
        if b.args and f.name not in seen:
            seen.add(f.name)
            R.analyse(f, 0, (), lambda line, kind, msg: ctx.violation(f.file, line, kind, "%s:%s" % (b.name, f.short), "built-in %s: %s" % (b.name, msg)))
    ctx.count("builtins", nb, 300)
    ctx.count("node_operations_typed", nops, 20000)
    ctx.count("helper_functions_entered", len(helpers), 40)
    ctx.count("returns_checked_for_result", R.nret, 500)
    ctx.cov["strictness_letters"] = dict(strictness)
    ctx.count("selftests", selftest(P, B, cls, ctype), 3)
