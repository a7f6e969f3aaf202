"""Symbolic simulation of word-level operations."""
from vx import facts, gates, wexpr
from vx.cfg import compute_noret, cfg, Flow, TRUE
from vx.facts import *
from vx.gates import Bad, Unsupported

EXPLAIN = """
Every operation of the simulator is summarised for words of any width.  Integers are polynomials over the sizes of the
operation; a loop becomes one generic iteration with its counters in closed form; the rails it carries from bit to bit
are the state of a finite transducer; the cells it writes are layers over the buffer, indexed by the iteration.  The bit
of weight w of the result is then a Boolean function of input rails (and carried state) for a symbolic w.  It is compared
with the arithmetic by truth tables, by exploring the product of the transducer with the reference machine (full adder,
borrow, comparison), and, for the multi-pass operations (multiplication, shifts, division, memories), pass by pass against
the invariant step.  The functions behind the connectives of each mode, and what is made of each word expression, are
interpreted along all their paths.
"""
RULES = ["operation: on known bits the result is the one of the operation, for every width; the two rails of a result bit are complementary",
         "monotone: an input with less information never gives a result with more (except the lattice comparison)",
         "connective: the functions installed for each mode compute and/or/not/tests; the size-limited ones give the exact value or the unknown one",
         "restore: an operation that changes the connectives puts them back",
         "compile: every word expression becomes the operation of its constructor, with its operands in the order and of the width the operation reads them, every field set, and recorded as a fanout of all its inputs"]
ASSUME = ["operands have the sizes their operation declares (checked when the expression is compiled, by rule compile)",
          "decision-diagram and expression connectives are correct (C05, C06)"]


def run(ctx):
    P = ctx.program("graph")
    compute_noret(P)
    ops = {}
    for f in P.funcs.values():
        if f.body is not None and f.short in gates.GATES and f.file.endswith("fsm.c"):
            ops[f.short] = f
    und = []
    checked = 0
    for name, spec in sorted(gates.GATES.items()):
        f = ops.get(name)
        if f is None:
            und.append("%s: not found" % name)
            continue
        try:
            G = gates.Gate(P, f)
            spec(G)
            ctx.cov.setdefault("obligations_per_operation", {})[name] = G.nchk
            checked += 1
        except Bad as x:
            ctx.violation(f.file, f.line, "monotone" if "monotone" in str(x) else "operation", name, str(x))
            checked += 1
        except (Unsupported, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            und.append("%s: %s" % (name, x))
    ctx.count("operations", len(ops), 20)
    # connectives
    nconn = 0
    roles = {}
    for f in P.funcs.values():
        if f.body is None or not f.file.endswith("fsm.c"):
            continue
        asg = {}
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] == "g":
                g = re.sub(r"[#@].*", "", strip(e[4])[3])
                if g in gates.SPECS or g in gates.TESTS:
                    asg.setdefault(g, []).append(strip(e[5]))
        if not asg:
            continue
        for g, rs in asg.items():
            for r in rs:
                while r[0] == "un" and r[3] == "&":
                    r = strip(r[4])
                if r[0] == "fn" and r[3] in P.funcs:
                    roles.setdefault((g, r[3]), (f, g in asg and "c_NOT" not in asg))
        if "c_NOT" not in asg:
            for g, line in not_restored(P, f, set(asg)):
                ctx.violation(f.file, line, "restore", f.short, "%s is left changed on a path to the end of the function" % g)
            nconn += 1
        else:
            # a mode: all or nothing
            try:
                R, env = gates.switch(P, f)
            except Unsupported as x:
                und.append("%s: %s" % (f.short, x))
                continue
            have = {re.sub(r"[#@].*", "", k): v for k, v in env.items() if isinstance(k, str)}
            for g in list(gates.SPECS) + list(gates.TESTS):
                if g not in have:
                    ctx.violation(f.file, f.line, "connective", f.short, "%s is not set for this mode" % g)
            for g, w in (("c_ZERO", gates.ZERO), ("c_ONE", gates.ONE)):
                m = [v for k, v in env.items() if isinstance(k, str) and re.sub(r"[#@].*", "", k) == g]
                if not m or m[0] != ("rail", w):
                    ctx.violation(f.file, f.line, "connective", f.short, "%s is not set to its constant" % g)
            nconn += 1
    for (g, fn), (where, weak) in sorted(roles.items()):
        F = P.funcs[fn]
        err = None
        for m in ("f", "bp", "i"):
            try:
                if g in gates.SPECS:
                    gates.connective(P, F, m, gates.SPECS[g], weaken=weak)
                else:
                    gates.boolean(P, F, m, gates.TESTS[g])
                err = None
                nconn += 1
                break
            except Bad as x:
                if err is None or err[0] != "bad":
                    err = ("bad", str(x))
            except (Unsupported, KeyError, TypeError, IndexError) as x:
                if err is None:
                    err = ("?", str(x))
        if err and err[0] == "bad":
            ctx.violation(F.file, F.line, "connective", F.short, "%s, installed as %s" % (err[1], g))
        elif err:
            und.append("%s: %s" % (F.short, err[1]))
    ctx.count("connectives", nconn, 8)
    # compilation
    nc = 0
    for f in P.funcs.values():
        if f.body is None or f.short != "compile_expr":
            continue
        for which, r in wexpr.compile_checks(P, f):
            if isinstance(r, tuple):
                und.append("%s for %s: %s" % (f.short, which, r[1]))
                continue
            nc += 1
            if r:
                ctx.violation(f.file, f.line, "compile", which, "%s: %s" % (which, r))
    for f in P.funcs.values():
        if f.body is None or f.short not in ("is_binary_wexpr", "is_relation_wexpr"):
            continue
        for nm, op, line in chosen(P, f):
            nc += 1
            want = wexpr.NAMES.get(nm)
            if want and op != want:
                ctx.violation(f.file, line, "compile", nm, "%s is compiled to %s" % (nm, op))
    ctx.count("compiled_forms", nc, 8)
    for u in und:
        ctx.notes.append("not decided: " + u)
    ctx.cov["undecided"] = und
    # self-test: the engine must tell wrong operations apart
    n = 0
    for a, b in (("op_ADD", "op_SUB"), ("op_SHL", "op_SHR"), ("op_EQ", "op_GR"), ("op_AND", "op_OR")):
        if a in ops:
            try:
                gates.GATES[b](gates.Gate(P, ops[a]))
            except Bad:
                n += 1
            except Exception:
                pass
    ctx.cov["selftests"] = n
    if n == 0 and len(und) < 10:
        raise facts.AnalysisBroken("self-test: wrong operations are not told apart")


def chosen(P, f):
    """(constructor, operation) pairs: the operation stored where a name is known to be the constructor's"""
    g = cfg(P, f)

    def edge(n, lab, s):
        x = strip(n.expr) if n.kind == "b" and n.expr is not None else None
        if x is not None and x[0] == "bin" and x[3] in ("==", "!="):
            for a in (x[4], x[5]):
                a = strip(a)
                if a[0] == "var" and re.sub(r"[#@].*", "", a[3]).startswith("s_W_"):
                    if (lab == TRUE) == (x[3] == "=="):
                        return re.sub(r"[#@].*", "", a[3])[2:]
        return s
    inn = Flow(g, lambda n, s: (s,), edge, cap=64).run([""])
    out = []
    for n in g.nodes:
        if n.kind not in ("e", "d") or n.expr is None:
            continue
        for x in walk(n.expr) if n.kind == "e" else ():
            if x[0] == "bin" and x[3] == "=" and strip(x[5])[0] == "fn":
                op = re.sub(r"[#@].*", "", strip(x[5])[3])
                if op.startswith("op_"):
                    out += [(s, op, x[1]) for s in inn.get(n.id, ()) if s]
    return out


def not_restored(P, f, gl):
    """globals whose value at some exit is not the one at entry"""
    g = cfg(P, f)
    sh = lambda n: re.sub(r"[#@].*", "", n)

    def value(s, e):
        e = strip(e)
        while e[0] == "cast" or (e[0] == "un" and e[3] == "&"):
            e = strip(e[3] if e[0] == "cast" else e[4])
        if e[0] == "var":
            return dict(s).get(e[3], ("entry", e[3]) if e[4] == "g" else ("?",))
        return ("fn", e[3]) if e[0] == "fn" else ("?",)

    def tr(n, s):
        d = dict(s)
        if n.kind == "d" and n.expr[2] is not None:
            v = value(s, n.expr[2])
            if v[0] != "?":
                d[n.expr[0]] = v
            else:
                d.pop(n.expr[0], None)
        elif n.kind == "e" and n.expr is not None:
            for x in walk(n.expr):
                if x[0] == "bin" and x[3] == "=" and strip(x[4])[0] == "var":
                    k = strip(x[4])[3]
                    v = value(s, x[5])
                    if v[0] != "?" or sh(k) in gl:
                        d[k] = v
                    else:
                        d.pop(k, None)
        return (tuple(sorted(d.items())),)
    inn = Flow(g, tr, None, cap=256, widen=lambda c, o: None).run([()])
    bad = set()
    for s in inn.get(g.exit.id, ()):
        for k, v in s:
            if sh(k) in gl and v != ("entry", k):
                bad.add((sh(k), f.line))
    return sorted(bad)
