"""Symbolic trajectory evaluation applies and checks the constraints it was given."""
from vx import stesem
from vx.cfg import compute_noret
from vx.stesem import OBLIGATIONS, Wrong
from vx.summ import Unsupported

EXPLAIN = """
Each function of the STE engine is summarised as the list of its paths over symbolic terms: the tests passed, the stores,
calls and loops in order, and the value returned.  A loop is one generic iteration, with its counters and list cursors in
closed form; every simulator value is a Boolean formula over the rails read.  The obligations below are then decided on
every path, formulas by truth table: what a node's two rails become, when its fanouts are scheduled, which events an entry
of each list becomes and when each is applied, what remains in force when one of several constraints ends, how the four
verdict conditions are accumulated and combined, and in which order events, evaluation, checks and phases follow each other.
"""
RULES = ["node: a node's rails become (new or weakening) and antecedent; the trajectory's validity is conjoined with their disjunction; a changed value schedules all fanouts",
         "constraints: an entry of the weakening, antecedent, consequent or trace list becomes one start and one end event with its node, its times and its rails; inconsistent entries are accumulated; unknown nodes are reported; empty intervals are dropped; the events are in order of decreasing time",
         "events: every event that is due, and no other, is handled once according to its type; what is in force on a node is the combination of all its active events; the node is re-evaluated when its antecedent or weakening changes",
         "step: a time step handles its events, re-evaluates what changed, evaluates to stability, checks every consequent on both rails, and applies the constraints of the next phase before entering it; a run that did not stabilise gives no result",
         "phase: inputs become unknown; delayed nodes take the value computed in the previous phase, once",
         "schedule: a scheduled operation is evaluated once, with the current rails of its inputs in order, its results reach its outputs in order (delayed ones in the next phase), and evaluation ends only after a sweep over all ranks that found nothing",
         "initial: a run starts unconstrained, with every operation evaluated, no mark of an earlier run, and constants at their values",
         "verdict: every result flag gives the combination of the four conditions it is named for"]
ASSUME = ["operations compute what they should (C07); the connectives are correct (C05, C06)",
          "M_LOCATE_BUF stays inside its buffer"]


def run(ctx):
    P = ctx.program("graph")
    compute_noret(P)
    fs = {}
    for f in P.funcs.values():
        if f.body is not None and f.file.endswith("fsm.c"):
            fs.setdefault(f.short, f)
    und = []
    done = 0
    nob = {}
    for name, check, rule in OBLIGATIONS:
        f = fs.get(name)
        if f is None:
            und.append("%s: not found" % name)
            continue
        try:
            nob[name] = check(P, f)
            done += 1
        except Wrong as x:
            ctx.violation(f.file, f.line, rule, f.short, str(x))
            done += 1
        except (Unsupported, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            und.append("%s: %s %s" % (name, type(x).__name__, x))
    ctx.cov["obligations"] = nob
    if und:
        ctx.cov["undecided"] = und
        ctx.notes.append("undecided: " + "; ".join(und))
    ctx.count("functions", done, 7)
    ctx.count("paths", sum(nob.values()), 20 if not und else 0)
