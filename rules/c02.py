"""Each reduction step of the evaluator."""
from vx import facts, evalstep
from vx.evalstep import Steps, LAWS

EXPLAIN = """
The dispatch of the evaluator over primitive operators is found in the program (the switch over a node's primitive with
the combinators among its labels).  From every label an abstract interpreter follows all paths, through the shared
endings and the helpers, to the head of the evaluation loop or to the return, in the domain of operands, application
nodes, stack pointer and operand count relative to the start of the step, with path facts; each end is checked against
the rules below.  Values computed by the primitive itself are not modelled, except for the combinators, the
conditional and the failure handlers, whose results are compared with their laws.
"""
RULES = ["depth: an operand is taken from the stack only where the operand count has been tested to be large enough",
         "arity/pop/root: stack pointer and operand count move by the number of operands required, evaluation continues at the application with that many operands",
         "redex/noresult: exactly that application is rewritten, on every path",
         "law: S, S', C, C', B, B*, B', Y, K, I, sequencing, list and pair operators, conditionals and failure handlers rewrite as their laws say; the branches of a conditional are evaluated under the condition that selects them",
         "failure: an operand that was evaluated is tested for failure before use, and a failed operand makes the step fail (handlers excepted)",
         "unevaluated: an operand is looked into only after it was evaluated",
         "strictness: an argument of an external function is evaluated by the function its strictness letter stands for",
         "balance/condition: the function trace, root stacks and the evaluation condition are as before at the end of the step",
         "refcount: every new reference to a node is counted, and what the application referred to is released at most once",
         "early: giving up for want of operands happens before anything was rewritten"]
ASSUME = ["primitives that are given the address of the stack pointer (printf family) are not followed",
          "graph accessor macros of graph.h are primitive operations"]


def run(ctx):
    P = ctx.program("graph")
    S = Steps(P)
    rel = S.f.file
    seen = set()

    def report(line, rule, op, msg):
        ctx.violation(rel, line, rule, "%s" % op, "%s: %s" % (op, msg))
    S.run(report)
    ctx.count("operators", len(S.ops), 70)
    ctx.count("operators_with_law", sum(1 for o in LAWS if o in S.ops), len(LAWS))
    ctx.count("obligations", S.obl, 1500)
    ctx.count("abstract_states", S.states, 2000)
    ctx.cov["operands_consumed"] = {o: ",".join(n) for o, n in S.ops.items()}
    # self-test: a wrong law must be reported
    n = 0
    for op, law in (("P_S", (3, ("@", ("@", 1, 3), ("@", 3, 2)))), ("P_K", (2, ("=", 2))), ("P_CONS", (2, (":", 2, 1))), ("P_C", (2, ("@", ("@", 1, 3), 2)))):
        old = LAWS[op]
        LAWS[op] = law
        got = []
        for t, l in S.sw.succ:
            if l and l[0] == "C" and l[2] == op:
                Steps(P).one(t, op, l[1], lambda *a: got.append(a))
        LAWS[op] = old
        if not any(g[1] == "law" for g in got):
            raise facts.AnalysisBroken("self-test: a wrong law of %s is not reported" % op)
        n += 1
    ctx.count("selftests", n, 4)
