"""Boolean expressions stand for the functions they are built for."""
from vx import facts, bexprsem, boolsem, gtypes
from vx.cfg import compute_noret

EXPLAIN = """
Every function that makes, combines, substitutes in or converts Boolean expressions (and-inverter graphs) is interpreted
abstractly along all its paths, with the operands in every combination of complement bits.  An expression is a Boolean
term over the values of nodes at one arbitrary assignment; results, entries in result tables, node fields and the
literals handed to the satisfiability solver are compared with their specification by truth tables.  Mapped operations
(bITE, bEqual, gen_b*) are followed into the function they map, under the static variables left at the call.
"""
RULES = ["value: on every path the result stands for the function the operation is specified to compute",
         "memo: what is entered in a table of results is the result for exactly the expression it is entered under; a result kept in a node is used only when it stands for the node itself",
         "node: a new node has the kind, operands and name asked for, a literal defined as the conjunction of its operands' literals, and is entered in the table of unique nodes",
         "literal: the solver is asked about the literals of the operands, with their signs, and its answer is not taken for more than it says",
         "tagged: no field is read through a pointer that may carry the complement bit",
         "leaf: an operation mapped over structures combines expression leaves by its specification, keeps equal leaves of other types and refuses different ones; static variables it reads hold what was meant at the time they are read",
         "failure: the value of an operand is not read when its evaluation may have failed"]
ASSUME = ["the satisfiability solver's answers are right (minisat, external)", "Is_equal decides equality of the leaves that are not expressions"]


def run(ctx):
    P = ctx.program("graph")
    compute_noret(P)
    seen = set()

    def report(f, line, rule, msg):
        k = (f.name, rule, msg)
        if k not in seen:
            seen.add(k)
            ctx.violation(f.file, line, rule, f.short, msg)
    R = bexprsem.Runner(P, report)
    bexprsem.conn(R)
    R.node()
    R.sameand()
    R.unsat()
    bexprsem.rewrites(R)
    nb = 0
    for b in gtypes.builtins(P):
        f = P.funcs.get(b.fn)
        if b.name in bexprsem.BUILTINS and bexprsem.BUILTINS[b.name][0] == "BEXPR":
            k, n, sp, fail = bexprsem.BUILTINS[b.name]
            R.builtin(f, n, bexprsem.val(k, sp, fail), b.name)
            nb += 1
        elif b.name in bexprsem.MAPPED:
            n, o, sp, fold, ite = bexprsem.MAPPED[b.name]
            R.mapped(f, b.name, n, o, sp, fold, ite)
            nb += 1
        elif b.name == "base_bexpr2bdd":
            bexprsem.convert(R, f)
            nb += 1
        elif b.name == "bsubstitute":
            bexprsem.substbuiltin(R, f)
            nb += 1
    ctx.count("builtins", nb, 14)
    fns = {x for x, _, _ in R.done}
    ctx.count("functions", len(fns), 30)
    ctx.count("paths", R.paths, 150)
    ctx.count("obligations", R.obl, 280)
    ctx.cov["checked_functions"] = sorted(fns)
    n = 0
    for tbl, key, bad in ((bexprsem.CONN, "BE_Xor", (2, boolsem.Or)), (bexprsem.CONN, "BE_Ite", (3, lambda c, t, e: boolsem.Ite(c, e, t))),
                          (bexprsem.CONN, "be_and", (2, boolsem.Or))):
        old = tbl[key]
        tbl[key] = bad
        got = []
        bexprsem.conn(bexprsem.Runner(P, lambda *a: got.append(a)))
        tbl[key] = old
        if not any(g[2] == "value" for g in got):
            raise facts.AnalysisBroken("self-test: a wrong specification of %s is not reported" % key)
        n += 1
    ctx.count("selftests", n, 3)
