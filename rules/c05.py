"""Decision diagrams stand for the Boolean functions they are built for."""
from vx import facts, bddsem, bexprsem, boolsem, gtypes
from vx.cfg import compute_noret

EXPLAIN = """
Every function that makes, combines, quantifies, substitutes in, takes apart or rearranges decision diagrams is
interpreted abstractly along all its paths.  A diagram is a Boolean expression over the values of variables and sons at
one arbitrary assignment; tests on edges, complement bits and variable positions become facts of the path; what is
returned, entered in a cache or stored in a node is compared with its specification by truth tables over the atoms that
occur (at most 23).  Recursive calls stand for their specification; what a cache holds is what its key stands for.
"""
RULES = ["value: on every path the result stands for the function the operation is specified to compute",
         "cache/cachekey: what is entered in a cache is the result for exactly the key it is entered under, and what is found is used for that key only",
         "requires: a node gets sons that are below it in the variable order; operations are called with a valid kind",
         "node: a new node is canonical (left son not complemented, sons different), entered in the table of its variable, its sons counted",
         "swap: exchanging two neighbouring variables leaves the function of every node as it was, and moves every node that depends on both",
         "builtin: the language-level T, F, NOT, AND, OR, XOR, XNOR, limited AND/OR and top_cofactor return the value of the operation, and test operands for failure"]
ASSUME = ["the garbage collector keeps every diagram reachable from the roots (C08)",
          "the variable order is total and the sons of a node are below it (established by rule requires)"]


def run(ctx):
    P = ctx.program("graph")
    compute_noret(P)
    seen = set()

    def report(f, line, rule, msg):
        k = (f.name, rule, msg)
        if k not in seen:
            seen.add(k)
            ctx.violation(f.file, line, rule, f.short, msg)
    done = bddsem.run_all(P, report)
    paths, obl = sum(n for _, n, _ in done), sum(o for _, _, o in done)
    for g in (bddsem.find_insert, bddsem.cofactors):
        n, o = g(P, report)
        paths, obl = paths + n, obl + o
    n, o, moved = bddsem.swap(P, report)
    ctx.count("moved_node_states", moved, 3)
    obl += o
    R = bexprsem.Runner(P, report)
    nb = 0
    for b in gtypes.builtins(P):
        f = P.funcs.get(b.fn)
        if b.name in bexprsem.BUILTINS and bexprsem.BUILTINS[b.name][0] == "BOOL":
            k, n, sp, fail = bexprsem.BUILTINS[b.name]
            R.builtin(f, n, bexprsem.val(k, sp, fail), b.name)
            nb += 1
        elif b.name == "top_cofactor":
            n, o = bddsem.top_cofactor(P, f, report)
            paths, obl = paths + n, obl + o
            nb += 1
    ctx.count("builtins", nb, 10)
    ctx.count("functions", len({x for x, _, _ in done}) + 4, 22)
    ctx.count("paths", paths + R.paths, 400)
    ctx.count("obligations", obl + R.obl, 1200)
    ctx.cov["checked_functions"] = sorted({x for x, _, _ in done} | {"find_insert_bdd", "Get_top_cofactor", "swap_down"})
    # self-test: wrong specifications must be reported
    n = 0
    for tbl, key, bad in ((bddsem.OPS, 1, boolsem.Or), (bddsem.OPS, 3, boolsem.And), (bddsem.CONNECTIVES, "B_Nor", (2, boolsem.And))):
        old = tbl[key]
        tbl[key] = bad
        got = []
        bddsem.run_all(P, lambda *a: got.append(a))
        tbl[key] = old
        if not any(g[2] == "value" for g in got):
            raise facts.AnalysisBroken("self-test: a wrong specification of %s is not reported" % key)
        n += 1
    ctx.count("selftests", n, 3)
