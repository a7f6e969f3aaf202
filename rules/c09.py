"""Memory in use is never reclaimed: references between graph nodes are counted."""
from vx.cfg import compute_noret
from vx.facts import *
from vx.gtypes import builtins, find
from vx.refcnt import INPLACE, LOADS, Refs, fork_map, gtype, ofparam, root, settle

EXPLAIN = """
A node of the graph is freed when the last counted reference to it is given up.  Every function that handles nodes is run
abstractly, path by path, with a balance per value (fresh +1, INC_REFCNT +1, stored in a node -1, DEC_REF_CNT -1, the node
that holds it overwritten +1); calls act by their callee's summary, computed to a fixpoint over the program.  A balance
below zero when the value is out of reach is a reference that is not counted: the node can be freed while it is in use.
"""
RULES = ["counted: a reference stored in a node, or given up with DEC_REF_CNT, is one the function has: the node was made there, its count was incremented for it, or the reference was taken from a node being overwritten",
         "released: a node, or a part of it reachable only through it, is not read, referred to, or released again after the last reference the function had to it was given up"]
ASSUME = ["evaluation of a node happens in place; the evaluator's own dispatch (traverse_left) is outside this property (C02)",
          "a node found in a record, buffer, table or external object is kept alive by its owner",
          "the compile phase (parser, type checker, combinator compiler) builds expression graphs nothing else refers to yet",
          "nodes referred to from a node that is cut off and never released are kept until the next collection, which recounts"]
# the leaf kinds of results; nodes built on the way to one are temporary
LEAFS = {"int", "bool", "string", "bexpr", "void"}


def handles(f):
    for e in all_exprs(f):
        if e[0] == "call":
            n = callee(e)
            if n and (n in LOADS or n.startswith(("VX_MK_", "VX_SETG", "f_SET")) or n in ("VX_INC_REFCNT", "VX_OVERWRITE", "dec_ref_cnt")):
                return True
    return any(gtype(f, p[1]) for p in f.params) or gtype(f, f.ret)


def refs_fns(f):
    """functions called or whose address is passed on"""
    out = set()
    for e in all_exprs(f):
        for s in subexprs(e):
            if s is not None:
                s = strip(s)
                if s is not None and s[0] == "un" and s[3] == "&":
                    s = strip(s[4])
                if s is not None and s[0] == "fn":
                    out.add(s[3])
    return out


def closure(P, start, stop):
    seen, work = set(start), list(start)
    while work:
        f = P.funcs.get(work.pop())
        if f is None or f.body is None:
            continue
        for g in refs_fns(f):
            if g in P.funcs and g not in seen and g not in stop:
                seen.add(g)
                work.append(g)
    return seen


def describe(t):
    r = root(t)
    if r[0] == "new":
        return "the node made by %s" % r[2].split("@")[0]
    if r[0] in ("it", "lost"):
        return "a part of an argument"
    if r[0] == "ret":
        return "the node %s found" % r[2].split("@")[0]
    if r[0] == "p":
        s = "parameter %d" % (r[1] + 1)
        path = []
        while t[0] in ("ld", "was"):
            path.append({"L": "left", "R": "right"}[t[1]])
            t = t[2]
        return "the %s of %s" % (" of the ".join(path), s) if path else s
    return "a value"


def run(ctx):
    P = ctx.program("graph")
    compute_noret(P)
    stop = set(INPLACE) | {"dec_ref_cnt", "inc_refcnt_children", "Get_node"}
    names = [n for n, f in P.funcs.items() if f.body is not None and n not in stop and not n.startswith(("f_GET", "f_SET")) and handles(f)]
    R = Refs(P, names, {"Get_node"})
    R.fixpoint()
    ext = set()
    for f in P.funcs.values():
        for c in calls_of(f):
            if callee(c) == "Add_ExtAPI_Object" and strip(c[4][0])[0] == "str":
                ext.add("adt:" + strip(c[4][0])[3])
    plain, built = set(), set()
    for b in builtins(P):
        if b.fn is None or b.fn not in P.funcs:
            continue
        t = find(b.res) if hasattr(b, "res") and b.res is not None else None
        if t is not None and (t.con in LEAFS or t.con in ext):
            plain.add(b.fn)
        else:
            built.add(b.fn)
    plain -= built
    scope = closure(P, built, stop | set(INPLACE) | {"Eval", "force", "reduce"}) | plain
    roots = plain | built
    # functions handed to iterators see nodes their owner keeps
    direct = {callee(x) for f in P.funcs.values() if f.body is not None for x in calls_of(f)}
    back = {n for n in scope if n not in roots and n not in direct}
    def look(n):
        f = P.funcs[n]
        found = {}

        def rep(line, fl, t, k, when):
            found.setdefault((fl.f.name, line, str(t[:3])), (n, line, t, when))
        outs, fl, s = R.one(n, rep)
        if outs is None:
            return n, None, R.broken.get(n, "")
        for node, st, c, rt in outs:
            for t, k in settle(c[1], rt).items():
                if k >= 0 or t == rt and n not in roots:
                    continue
                if t[0] == "lost":
                    if n in built:
                        found.setdefault((t[1], t[2], str(t[:3])), (t[1], t[2], t, "in a result of %s" % f.short))
                    continue
                if n in back and t == rt:
                    continue
                if n in roots or n in back and root(t)[0] == "p" or (root(t)[0] != "p" and not ofparam(t)):
                    if n in plain and ofparam(t):
                        continue
                    ln = node.line if node.kind == "ret" else f.line
                    found.setdefault((n, ln, str(t[:3])), (n, ln, t, "when the function is left"))
        return n, len(outs), found
    seen = {}
    done = nst = 0
    und = []
    for n, k, found in fork_map(look, [n for n in R.names if n in scope]):
        if k is None:
            und.append("%s: %s" % (P.funcs[n].short, found))
            continue
        done += 1
        nst += k
        for a, b in found.items():
            seen.setdefault(a, b)
    for n, line, t, when in seen.values():
        f = P.funcs[n]
        if when == "released":
            ctx.violation(f.file, line, "released", f.short, "%s is used after its last reference was given up" % describe(t))
            continue
        ctx.violation(f.file, line, "counted", f.short, "the reference to %s is not counted (%s)" % (describe(t), when))
    ctx.cov["functions in scope"] = done
    ctx.cov["summaries"] = len(R.summ)
    if und:
        ctx.cov["undecided"] = und
        ctx.notes.append("undecided: " + "; ".join(und))
    ctx.count("functions", done, 150)
    ctx.count("exit states", nst, 300)
    ctx.count("builtins", len(roots), 250)
