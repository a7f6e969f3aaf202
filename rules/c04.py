"""Interpreter state around an operation is what it was before, on every way out of it."""
from vx.facts import *
from vx.gtypes import builtins
from vx.cfg import order
from vx.paths import base
from vx import nest, owned

EXPLAIN = """
The state an operation sets up for its own duration -- nodes and diagrams protected from garbage collection, string
contexts, the current circuit and the current trajectory evaluation, type checking contexts, the function trace, the
evaluation context and the jump target of failures -- is modelled as a depth per kind.  For every function a
path-correlated interprocedural data flow computes the change of every depth at every return, at every jump to a
setjmp and behind every setjmp (from the depths at the jumps that reach it); the contract of a function is the change
it makes (per constant it returns, if that differs).  A second data flow decides that tables, buffers, files and saved
settings of a function are taken down, closed or put back on every way out if they are on one.
"""
RULES = ["balance: all returns of a function agree on the change of depth, and a built-in changes no depth",
         "reenter: nothing that evaluates expressions of the user, and no second set-up, runs while a state with a single place to be saved in is set up",
         "use: variables of the current circuit or evaluation are used only between its set-up and its take-down",
         "pair: what the take-down of a context puts back is what its set-up saved and replaced",
         "local: a table, buffer, manager or file a function takes down on one way out is taken down exactly once, and not used afterwards, on every way out",
         "restore: a setting a function saves and puts back on one way out is put back on every way out"]
ASSUME = ["calls through pointers change no depth; callbacks of the graphical interface served during garbage collection do not operate on circuits",
          "runtime errors that abort to the evaluator (Rprintf) may leave nodes protected and contexts allocated",
          "set-up functions run once at start-up may protect nodes for good"]
# kinds with one place to save the previous state in: kind -> (set-up, take-down)
SLOTS = {"fsm": ("push_fsm_env", "pop_fsm_env"), "ste": ("push_ste", "pop_ste")}
QUIET = {"Do_garbage_collect", "Garbage_collect", "Serve_Interrupt", "Send_to_tcl"}


def callgraph(P):
    calls = {}
    for f in P.funcs.values():
        calls[f.name] = {callee(c) for c in calls_of(f)} - {None}
    return calls


def reach(calls, target, skip=()):
    rev = {}
    for a, cs in calls.items():
        if a.split("@")[0] in skip:
            continue
        for c in cs:
            rev.setdefault(c, set()).add(a)
    seen, work = set(target), list(target)
    while work:
        for r in rev.get(work.pop(), ()):
            if r not in seen:
                seen.add(r)
                work.append(r)
    return seen


def assigned_globals(f):
    """{global: set of right-hand sides' variables} of plain assignments"""
    out = {}
    for e in all_exprs(f):
        if e[0] == "bin" and e[3] == "=":
            l = strip(e[4])
            if l[0] == "var" and l[4] in ("g", "s"):
                r = strip(e[5])
                out.setdefault(l[3], []).append(r[3] if r[0] == "var" else None)
    return out


def kindname(r):
    if r.startswith("sop"):
        r = "sop"
    if r == "gsop":
        return "the shared string context"
    if r == "envp":
        return "the jump target of failures"
    if r == "ctx":
        return "evaluation contexts"
    if "~" in r:
        return "elements of %s protected from garbage collection" % r.split("~")[1].split("@")[0].split("#")[0]
    return {x.name: x.what for x in nest.TABLE}.get(r, r)


def show_d(d):
    return ", ".join("%+d %s" % (k, kindname(r)) for r, k in d) or "none"


def run(ctx):
    P = ctx.program("graph")
    N = nest.Nest(P)
    for n, why in N.broken.items():
        ctx.notes.append("%s: not analysed (%s)" % (n, why))
    for n, r in sorted(N.unknown):
        ctx.notes.append("%s: %s not decided (protected or released by an amount not known)" % (n, kindname(r)))
    calls = callgraph(P)
    bi = {}
    for b in builtins(P):
        if b.fn in P.funcs:
            bi.setdefault(b.fn, b.name)
    roots = dict(bi)
    for f in P.funcs.values():
        for c in calls_of(f):
            if callee(c) == "Add_ExtAPI_Object":
                for a in c[4]:
                    a = strip(a)
                    if a[0] == "un" and a[3] == "&":
                        a = strip(a[4])
                    if a[0] == "fn" and a[3] in P.funcs:
                        roots.setdefault(a[3], a[3].split("@")[0])
    ctx.count("functions", len(N.rel), 250)
    ctx.count("operations_on_state", len(N.nops), 250)
    ctx.count("exits", sum(len(ex) for fl, ex in N.exits.values()), 1000)
    ctx.count("builtins_and_object_functions", len([r for r in roots if r in N.rel]), 60)
    # ---- balance
    for n in sorted(N.rel):
        f = P.funcs[n]
        s = N.sums[n]
        if n in N.conflict:
            ds = N.conflict[n]
            ref = min(ds, key=lambda d: (sum(abs(k) for r, k in d), d))
            fl, ex = N.exits[n]
            # the change most exits agree on is the one meant
            cnt = {}
            for node, st, d, v in ex:
                cnt.setdefault(d, set()).add(node.id)
            best = max(cnt.values(), key=len)
            if not any(d == () for d in ds):
                ref = [d for d in ds if cnt.get(d) is best or (d in cnt and len(cnt[d]) == len(best))][0]
            seen = set()
            for node, st, d, v in ex:
                if d != ref:
                    for r in sorted({r for r, k in set(d) ^ set(ref)}):
                        if (node.id, r) in seen:
                            continue
                        seen.add((node.id, r))
                        p = fl.flow.path(node.id, st)
                        ctx.violation(f.file, node.line or (p[-1] if p else f.line), "balance", "%s:%s" % (f.short, r),
                                      "%s returns with %+d %s (on other ways out %+d); path through lines %s" %
                                      (f.short, dict(d).get(r, 0), kindname(r), dict(ref).get(r, 0), ",".join(map(str, p[-10:]))))
        elif n in roots:
            for v, d in s.rets:
                if d != ():
                    ctx.violation(f.file, f.line, "balance", f.short, "%s returns with a change of: %s" % (roots[n], show_d(d)))
        for (env, d), line in s.throws.items():
            if d != () and n in roots:
                ctx.violation(f.file, line, "balance", "%s:jump" % f.short, "%s is left by a jump to %s with a change of: %s" % (roots[n], env, show_d(d)))
    # ---- reenter
    ev = reach(calls, {"traverse_left"}, QUIET) if "traverse_left" in calls else reach(calls, {"force"}, QUIET)
    opens = {}
    for r, (up, down) in SLOTS.items():
        opens[r] = reach(calls, {n for n in calls if n.split("@")[0] == up})
    shared = set()
    for f in P.funcs.values():
        for e in all_exprs(f):
            if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] in ("g", "s") \
                    and strip(e[5])[0] == "call" and callee(strip(e[5])) == "Begin_string_ops":
                shared.add(f.name)
    opens["gsop"] = reach(calls, shared)
    nreen = 0
    for n in sorted(N.exits):
        f = P.funcs[n]
        fl, ex = N.exits[n]
        back = None
        done = set()
        for nid, sts in fl.flow.inn.items():
            node = fl.g.nodes[nid]
            e = node.expr if node.kind != "d" else (node.expr[2] if node.expr else None)
            if e is None:
                continue
            for st in sts:
                c = st[0]
                if c and c[0] == "$br":
                    continue
                d = dict(c[0])
                for x in order(e):
                    if x[0] != "call":
                        continue
                    cn = callee(x)
                    if cn is None or cn not in P.funcs:
                        continue
                    for r in ("fsm", "ste", "gsop"):
                        if d.get(r, 0) < 1 or (node.id, r) in done:
                            continue
                        nreen += 1
                        again = cn in opens[r] and cn.split("@")[0] not in [SLOTS[r][1]] if r in SLOTS else cn in opens[r]
                        if not again and cn not in ev:
                            continue
                        if cn.split("@")[0] in QUIET:
                            continue
                        if back is None:
                            back = returning(fl.g)
                        if node.id not in back:
                            continue
                        if not again and not evaluates(P, N, cn, ev, {}):
                            continue
                        done.add((node.id, r))
                        ctx.violation(f.file, x[1], "reenter", "%s:%s:%s" % (f.short, r, cn.split("@")[0]),
                                      "%s %s while %s is set up" % (cn.split("@")[0], "sets up again" if again else "evaluates expressions of the user", kindname(r)))
    ctx.count("calls_under_a_single_slot", nreen, 100)
    # ---- use
    nuse = 0
    for r, (up, down) in sorted(SLOTS.items()):
        ups = [f for f in P.funcs.values() if f.short == up]
        downs = [f for f in P.funcs.values() if f.short == down]
        if not ups or not downs:
            ctx.notes.append("no %s/%s" % (up, down))
            continue
        u, w = assigned_globals(ups[0]), assigned_globals(downs[0])
        saved = {}      # saved variable -> place
        replaced = set()
        for g, rs in u.items():
            src = [x for x in rs if x in u and x is not None]
            if src and all(x in u for x in rs) and g not in w:
                saved[src[0]] = g
        for g in u:
            if g not in saved.values():
                replaced.add(g)
        restored = {}
        for g, rs in w.items():
            for x in rs:
                if x is not None:
                    restored[g] = x
        ctx.count("variables_of_%s" % r, len(replaced), 8)
        for g in sorted(replaced):
            if g not in saved:
                ctx.violation(ups[0].file, ups[0].line, "pair", "%s:%s" % (up, g.split("@")[0]), "%s replaces %s without saving it" % (up, g.split("@")[0]))
            elif restored.get(g) != saved[g]:
                ctx.violation(downs[0].file, downs[0].line, "pair", "%s:%s" % (down, g.split("@")[0]),
                              "%s does not put back %s" % (down, g.split("@")[0]) if g not in restored else "%s puts back %s from %s, not from where it was saved" % (down, g, restored[g]))
        # what the set-up replaces through the functions it calls is replaced as well
        places = set(saved.values())
        below, work = set(), [ups[0].name]
        while work:
            for c in calls.get(work.pop(), ()):
                if c in P.funcs and P.funcs[c].file == ups[0].file and c not in below:
                    below.add(c)
                    work.append(c)
        for c in below:
            replaced |= {g for g in assigned_globals(P.funcs[c]) if g not in places}
        skip = {ups[0].name, downs[0].name} | below
        need = uses(P, N, calls, r, replaced, places, skip)
        nuse += len(need)
        for n in sorted(roots):
            if need.get(n):
                f = P.funcs[n]
                v, (line, via) = sorted(need[n].items())[0]
                chain, m = [n.split("@")[0]], n
                while need[m][v][1] is not None and len(chain) < 8:
                    m = need[m][v][1]
                    chain.append(m.split("@")[0])
                ctx.violation(f.file, line, "use", "%s:%s" % (f.short, r),
                              "%s uses %s (%s) outside of %s ... %s" % (roots[n], v.split("@")[0], " -> ".join(chain), up, down))
    ctx.count("functions_that_need_a_context", nuse, 40)
    # ---- local, restore
    nl = nr = 0
    for f in P.funcs.values():
        up, down, vup, vdown = owned.locals_of(P, f)
        vars, vals = up & down, vup & vdown
        sv = owned.saved(P, f)
        nl += len(vars) + len(vals)
        nr += len(sv)
        if not vars and not vals and not sv:
            continue
        seen = set()

        def rep(line, k, v, m):
            if (line, k, v) not in seen:
                seen.add((line, k, v))
                ctx.violation(f.file, line, "local", "%s:%s:%s" % (f.short, v.split("#")[0].split("@")[0], k), "%s in %s: %s" % (v.split("#")[0], f.short, m))
        fl = owned.OwnFlow(P, f, vars, vals, rep, sv)
        try:
            out = fl.run(frozenset())
        except AnalysisBroken as e:
            ctx.notes.append("%s: %s" % (f.short, e))
            continue
        for n, st, c, v in out:
            for a, b in c:
                if a in fl.reset:
                    continue
                nm = a.split("#")[0].split("@")[0]
                if b == "u" and (n.line, a) not in seen:
                    seen.add((n.line, a))
                    p = fl.flow.path(n.id, st)
                    ctx.violation(f.file, n.line or (p[-1] if p else f.line), "local", "%s:%s" % (f.short, nm),
                                  "%s returns without taking down %s, which it takes down on other ways out" % (f.short, nm))
                if b == "changed" and (n.line, a) not in seen:
                    seen.add((n.line, a))
                    ctx.violation(f.file, n.line or f.line, "restore", "%s:%s" % (f.short, nm),
                                  "%s returns without putting back %s, which it puts back on other ways out" % (f.short, nm))
    ctx.count("local_resources", nl, 60)
    ctx.count("saved_settings", nr, 4)


def returning(g):
    """nodes from which the function can return"""
    work = [n for n in g.nodes if n.kind == "ret"] + [g.exit]
    seen = {n.id for n in work}
    while work:
        n = work.pop()
        for p, l in n.pred:
            if p.id not in seen:
                seen.add(p.id)
                work.append(p)
    return seen


def evaluates(P, N, n, ev, memo, depth=0):
    """can n call the evaluator and still return?"""
    if n in memo:
        return memo[n]
    memo[n] = False
    if n in ("traverse_left", "reduce", "force", "Eval"):
        memo[n] = True
        return True
    f = P.funcs.get(n)
    if f is None or n.split("@")[0] in QUIET or depth > 40:
        return False
    from vx.cfg import cfg
    g = cfg(P, f)
    back = returning(g)
    for node in g.nodes:
        if node.id not in back or node.expr is None:
            continue
        e = node.expr if node.kind != "d" else node.expr[2]
        if e is None:
            continue
        for x in walk(e):
            if x[0] == "call" and callee(x) in ev and evaluates(P, N, callee(x), ev, memo, depth + 1):
                memo[n] = True
                return True
    return False


def uses(P, N, calls, r, vs, places, skip):
    """{function: {variable: (line, callee or None)}} -- variables of the context a function reads, itself or below a
    call, at a place where neither the context is set up nor the variable written by the function itself"""
    from vx.cfg import cfg
    evs = {}

    def events(n):
        if n not in evs:
            f = P.funcs[n]
            fl = N.exits[n][0] if n in N.exits else None
            g = fl.g if fl else cfg(P, f)
            out = {}
            for node in g.nodes:
                e = node.expr if node.kind != "d" else (node.expr[2] if node.expr else None)
                if e is None:
                    continue
                low = True
                if fl is not None:
                    low = any(not (st[0] and st[0][0] in ("$br", "$inj")) and dict(st[0][0]).get(r, 0) <= 0
                              for st in fl.flow.inn.get(node.id, ()))
                ev = []
                quiet = set()
                for x in order(e):
                    if x[0] == "bin" and x[3] == "=":
                        l, q = strip(x[4]), strip(x[5])
                        if l[0] == "var" and l[3] in places and q[0] == "var":
                            quiet.add(id(q))
                        if l[0] == "var" and l[3] in vs:
                            quiet.add(id(l))
                for x in order(e):
                    if x[0] == "bin" and x[3] == "=" and strip(x[4])[0] == "var" and strip(x[4])[3] in vs:
                        ev.append(("w", strip(x[4])[3], x[1]))
                    elif x[0] == "var" and x[3] in vs and id(x) not in quiet and low:
                        ev.append(("r", x[3], x[1]))
                    elif x[0] == "call" and callee(x) in P.funcs and callee(x) not in skip and low:
                        ev.append(("c", callee(x), x[1]))
                if ev:
                    out[node.id] = ev
            # variables certainly written before a node
            inn = {g.entry.id: frozenset()}
            if any(k == "w" for ev in out.values() for k, v, l in ev):
                work = [g.entry]
                while work:
                    node = work.pop()
                    s = inn[node.id] | {v for k, v, l in out.get(node.id, ()) if k == "w"}
                    for m, l in node.succ:
                        t = s if m.id not in inn else inn[m.id] & s
                        if m.id not in inn or t != inn[m.id]:
                            inn[m.id] = t
                            work.append(m)
            evs[n] = (out, inn)
        return evs[n]
    need = {}
    direct = {f.name for f in P.funcs.values() if f.name not in skip and any(e[0] == "var" and e[3] in vs for e in all_exprs(f))}
    changed = True
    while changed:
        changed = False
        for n in P.funcs:
            if n in skip or (n not in direct and not any(need.get(c) for c in calls[n])):
                continue
            out, inn = events(n)
            mine = need.setdefault(n, {})
            for nid, ev in out.items():
                w = set(inn.get(nid, ()))
                for k, v, line in ev:
                    if k == "w":
                        w.add(v)
                    elif k == "r" and v not in w and v not in mine:
                        mine[v] = (line, None)
                        changed = True
                    elif k == "c":
                        for u in need.get(v, ()):
                            if u not in w and u not in mine:
                                mine[u] = (line, v)
                                changed = True
    return {n: d for n, d in need.items() if d}
