"""What the functions of the STE engine must do, decided on their path summaries."""
from .facts import *
from .summ import *
from .cfg import compute_noret

NOPS = {"FP", "c_Print", "cHL_Print", "idx2name", "Info_to_tcl", "print_ilist", "Fail_pr_", "Print_size_ratio"}
SPEC = {"update_node", "add_op_todo", "do_phase", "do_wl_op", "do_combinational", "process_event", "record_trace", "end_simulation",
        "add_active_event", "delete_active_event", "initialize", "create_event_buffer", "free_ste_buffers", "allocate_ste_buffers", "push_fsm", "pop_fsm",
        "push_ste", "pop_ste", "Begin_string_ops", "End_string_ops", "create_ste", "Fail_pr", "Make_GBV_leaf", "MAKE_REDEX_GBV", "stop_node_active", "get_ste_rec"}
PURE = {"abs", "name2idx", "VX_IS", "VX_GETF", "VX_GETP", "VX_GETG", "GET_INT", "f_GET_CONS_HD", "f_GET_CONS_TL", "f_GET_FST", "f_GET_SND", "f_GET_STRING",
        "f_GET_BOOL", "GET_GBV", "strcmp", "strstr", "f_GET_EXT_OBJ"}
STABLE = {"nodesp", "compositesp", "cur_buf", "next_buf", "ant_buf", "weak_buf", "cons_buf", "sim_wheel_bufp", "event_bufp", "buf_size", "fanouts", "composite",
          "inps", "outs", "next", "idx", "from", "to", "size", "active_weak_tblp", "active_ant_tblp", "active_cons_tblp", "phase_delay", "type", "time", "nd_idx",
          "event_id", "ep"}
CELLS = ("cur_buf", "next_buf", "ant_buf", "weak_buf", "cons_buf")


class Wrong(Exception):
    pass


def neq(S, s, v):
    a, b = sorted(v, key=repr)
    if same(a, b):
        return [(("int", 0), s)]
    return [(("app", "NEQ", (a, b)), s)]


def eqv(S, s, v):
    a, b = sorted(v, key=repr)
    if same(a, b):
        return [(("int", 1), s)]
    return [(("int", int(t)), s2) for t, s2 in S.compare(s, "==", ("app", "NEQ", (a, b)), ("int", 0))]


GATES = {"c_AND": lambda S, s, v: [(And(*v), s)], "c_OR": lambda S, s, v: [(Or(*v), s)], "c_NOT": lambda S, s, v: [(Not(*v), s)], "c_NEQ": neq, "c_EQ": eqv}


def engine(P, but=()):
    S = Summ(P, opaque=SPEC - set(but), nops=NOPS, pure=PURE, gates=GATES, globals_={"c_ONE": T, "c_ZERO": F}, files={"fsm.c"}, stable=STABLE)
    S.distinct = {("ld", ("g", b), "start") for b in CELLS}
    S.keep = lambda a: True
    return S


def G(n):
    return ("ld", ("g", n), "start")


def elt(b, i):
    return ("elt", G(b), i)


def cell(lv):
    """(buffer, index, rail) of a cell of a value buffer"""
    if lv[0] != "ind":
        return None
    c, d = lin(lv[1])
    bs = [t for t in d if t[0] == "ld" and t[1][0] == "g" and t[1][1] in CELLS]
    if len(bs) != 1 or d[bs[0]] != 1:
        return None
    del d[bs[0]]
    if any(k % 2 for k in d.values()):
        return None
    return bs[0][1][1], mklin(c // 2, {t: k // 2 for t, k in d.items()}), c % 2


def celllv(b, i, r):
    return ("ind", add(add(G(b), mul(("int", 2), i)), ("int", r)))


def value_at(p, lv, before=None):
    """the last value stored to a place on the path, else None"""
    r = None
    for e in p.ev[:before]:
        if e[0] == "store" and e[1] == lv:
            r = e[2]
    return r


def flag(p, base, field):
    """outcome of a test of a flag on the path: True, False, None"""
    for a, v in p.facts.items():
        if a[0] == "eq0" and a[1][0] == "ld" and a[1][1] == ("fld", base, field):
            return not v
    return None


def eqc(p, t, n):
    """is the term known to equal / differ from the number"""
    return decide(p.facts, eq_atom(t, ("int", n)))


def calls(p, n):
    return [e for e in p.ev if e[0] == "call" and e[1] == n]


def loops(S, p):
    return [(i, S.loops[e[1]]) for i, e in enumerate(p.ev) if e[0] == "loop"]


def allloops(S, paths):
    seen, out = set(), []
    for e, p, i, ch in events(S, paths):
        if e[0] in ("loop", "some") and e[1] not in seen:
            seen.add(e[1])
            out.append(S.loops[e[1]])
    return out


def norm(t):
    """forget when memory was read"""
    if isinstance(t, tuple):
        if t and t[0] == "ld":
            return ("ld", norm(t[1]), "-")
        if t and t[0] in ("lin",):
            out = ("int", t[1])
            for u, k in t[2]:
                out = add(out, mul(norm(u), ("int", k)))
            return out
        return tuple(norm(x) for x in t)
    return t


def scan(S, L, buf, filler=None):
    """the loop visits every element of the buffer, once, from the first: its index, or None"""
    k = ("k", L["id"])
    ok = False
    bound = add(k, ("ld", ("fld", G(buf), "buf_size"), "start"), -1)
    at, pol = ge_atom(bound)
    inits = [(a, b) for a, b in L["vars"].values() if b is not None]
    walks = any(b == elt(buf, k) or (b == k and a == ("int", 0)) for a, b in inits)
    if not walks:
        return None
    ps = [p for p in L["paths"]]
    for p in ps:
        if decide(p.facts, at) is not (not pol):
            return None
        if p.end == "break":
            raise Wrong("the scan over all %s can stop early" % buf[:-1])
    return k


# ---- (a) ----
def update_node(P, f):
    S = engine(P, {f.short})
    n = 0
    idx = ("arg", 1)
    nd = elt("nodesp", idx)
    ste = ("arg", 0)
    old = [("ld", celllv("cur_buf", idx, r), "start") for r in (0, 1)]
    V = ("ld", ("fld", ste, "validTrajectory"), "start")
    for p in S.paths(f):
        if p.end == "dead":
            continue
        n += 1
        w, a = flag(p, nd, "has_weak"), flag(p, nd, "has_ant")
        stop = value_at(p, ("fld", ste, "active")) == ("int", 0)
        for wv in ((w,) if w is not None else (False, True)):
            for av in ((a,) if a is not None else (False, True)):
                want = []
                for r in (0, 1):
                    x = ("arg", 2 + r)
                    if wv:
                        x = Or(x, ("ld", celllv("weak_buf", idx, r), "start"))
                    if av:
                        x = And(x, ("ld", celllv("ant_buf", idx, r), "start"))
                    want.append(x)
                v = value_at(p, ("fld", ste, "validTrajectory")) or V
                if not same(v, And(V, Or(*want)) if av else V):
                    raise Wrong("the trajectory's validity is not conjoined with what the %s node can be" % ("asserted" if av else "unconstrained"))
                if stop:
                    continue
                for r in (0, 1):
                    got = value_at(p, celllv("cur_buf", idx, r)) or old[r]
                    if not same(got, want[r]):
                        raise Wrong("with%s weakening and with%s antecedent the %s rail becomes %s" % ("" if wv else "out", "" if av else "out", "HL"[r], pp(got)))
                # a change must schedule the fanouts
                quiet = 0
                for r in (0, 1):
                    for at, tv in p.facts.items():
                        if at[0] == "eq0" and tv and at[1][0] == "app" and at[1][1] == "NEQ":
                            x, y = at[1][2]
                            if (same(x, want[r]) and same(y, old[r])) or (same(y, want[r]) and same(x, old[r])):
                                quiet += 1
                                break
                    else:
                        if same(want[r], old[r]):
                            quiet += 1
                if quiet == 2:
                    continue
                if flag(p, nd, "fanouts") is False:
                    continue
                fan = [L for _, L in loops(S, p) if fans_out(S, L, nd)]
                if not fan:
                    raise Wrong("a path on which the value changes does not schedule the fanouts of the node")
                if p.val is not None and p.val[0] == "int" and p.val[1] == 0:
                    raise Wrong("scheduled operations are not reported to the caller")
    return n


def fans_out(S, L, nd):
    for x, (a, b) in L["vars"].items():
        if a == ("ld", ("fld", nd, "fanouts"), "start") and b == ("node", L["id"], a, "next"):
            ps = [p for p in L["paths"]]
            good = 0
            for p in ps:
                if p.end != "end":
                    raise Wrong("not all fanouts are scheduled")
                c = calls(p, "add_op_todo")
                if [norm(x[2][0]) for x in c] != [norm(elt("compositesp", ("ld", ("fld", b, "idx"), "-")))]:
                    raise Wrong("a fanout is not scheduled (or the wrong operation is)")
                if True not in (p.again or []):
                    raise Wrong("not all fanouts are scheduled")
                good += 1
            return good > 0
    return False


# ---- (b) ----
TYPES = ("start_weak", "start_ant", "start_cons", "start_trace", "end_weak", "end_ant", "end_cons", "end_trace")


def enums(P):
    out = {}
    for f in P.funcs.values():
        if f.body is None:
            continue
        for e in all_exprs(f):
            for x in walk(e):
                if x[0] == "int" and len(x) > 4 and x[4] in TYPES:
                    out[x[4]] = x[3]
    return out


def follows(L, p, q):
    """path q can be the iteration after path p, as far as flags tell"""
    for a, v in q.facts.items():
        if a[0] in ("eq0", "ge0"):
            c, ts = lin(a[1])
            if len(ts) == 1:
                (t, k), = ts.items()
                if t[0] == "it" and t[1] == L["id"]:
                    x = p.env.get(t[2])
                    if x and x[0] == "int":
                        n = c + k * x[1]
                        if (n == 0 if a[0] == "eq0" else n >= 0) != v:
                            return False
    return True


def process_event(P, f):
    S = engine(P, {f.short})
    en = enums(P)
    if len(en) < 8:
        raise Unsupported("event types not found")
    buf = ("arg", 0)
    time = ("arg", 1)
    ps = S.paths(f)
    top = [L for L in allloops(S, ps) if any(calls(p, "pop_buf") for p in L["paths"])]
    if not top:
        raise Unsupported("no loop that takes events off the list")
    L = top[0]
    last = ("elt", buf, add(("ld", ("fld", buf, "buf_size"), "start"), ("int", -1)))
    seen = set()
    n = 0
    for p in L["paths"]:
        if p.end == "dead":
            continue
        pops = calls(p, "pop_buf")
        eps = {x[1][1] for a in p.facts for x in subterms(a) if x[0] == "ld" and x[1][0] == "fld" and x[1][2] in ("time", "type")}
        if not eps:
            if pops:
                raise Wrong("an event is taken off the list without having been looked at")
            continue
        if len(eps) != 1:
            raise Unsupported("events are reached in more than one way")
        ep, = eps
        if norm(ep) != norm(("ld", ("ind", last), "-")):
            raise Wrong("the event examined is not the last one of the list: " + pp(ep))
        n += 1
        fld = lambda x: ("ld", ("fld", ep, x), "start")
        at, pol = ge_atom(add(time, fld("time"), -1))
        due = decide(p.facts, at)
        due = None if due is None else due == pol
        if due is None:
            raise Wrong("an event is handled whatever its time")
        if not due:
            if pops or any(e[0] == "store" and e[1][0] != "loc" for e in p.ev):
                raise Wrong("an event of the future is handled")
            if p.again and True in p.again and p.end == "end":
                for q in L["paths"]:
                    if calls(q, "pop_buf") and follows(L, p, q):
                        raise Wrong("the loop does not stop at an event of the future")
            continue
        if len(pops) != 1 or pops[0][2][0] != buf:
            raise Wrong("a handled event is taken off the list %d times" % len(pops))
        if p.end != "end" or not p.again or True not in p.again:
            raise Wrong("the loop stops although more events may be due")
        ty = [t for t in TYPES if eqc(p, fld("type"), en[t])]
        if len(ty) != 1:
            raise Wrong("an event is handled without regard to its type")
        ty, = ty
        seen.add(ty)
        kind, what = ty.split("_")
        idx = fld("nd_idx")
        nd = elt("nodesp", idx)
        has = value_at(p, ("fld", nd, "has_" + what))
        acts = calls(p, "add_active_event") + calls(p, "delete_active_event")
        other = {"weak", "ant", "cons", "trace"} - {what}
        for o in other:
            if value_at(p, ("fld", nd, "has_" + o)) is not None:
                raise Wrong("a %s event changes has_%s" % (ty, o))
        if what == "trace":
            if has != ("int", 1 if kind == "start" else 0):
                raise Wrong("%s leaves has_trace as %s" % (ty, pp(has) if has else "it was"))
            continue
        fn = "add_active_event" if kind == "start" else "delete_active_event"
        if len(acts) != 1 or acts[0][1] != fn or acts[0][2] != (G("active_%s_tblp" % what), ep):
            raise Wrong("%s does not %s the event %s the active %s events" % (ty, "add" if kind == "start" else "delete", "to" if kind == "start" else "from", what))
        res = [x for a in list(p.facts) + [e for e in p.ev] for x in subterms(a) if isinstance(x, tuple) and x and x[0] == "res" and x[1] == fn]
        for e in p.ev:
            if e[0] == "loop":
                res += [x for v in S.loops[e[1]]["vars"].values() for x in subterms(v) if isinstance(x, tuple) and x and x[0] == "res" and x[1] == fn]
        if kind == "start":
            if has != ("int", 1):
                raise Wrong("%s leaves has_%s as %s" % (ty, what, pp(has) if has else "it was"))
        else:
            z = decide(p.facts, ("eq0", res[0])) if res else None
            if has is None:
                raise Wrong("%s leaves has_%s as it was" % (ty, what))
            if has[0] == "int":
                if z is None or has[1] != int(not z):
                    raise Wrong("has_%s becomes %s at %s although other events may %sbe active" % (what, has[1], ty, "not " if has[1] else ""))
            elif not (res and has == res[0]):
                raise Unsupported("value of has_" + what)
        ch = [e[2] for e in p.ev if e[0] == "store" and e[1] == ("fld", nd, "has_ant_or_weak_change")]
        if what in ("weak", "ant"):
            if not ch or ch[-1] != ("int", 1):
                raise Wrong("%s does not have the node re-evaluated" % ty)
        elif ch and ch[-1] == ("int", 0):
            raise Wrong("%s cancels the re-evaluation of the node" % ty)
        z = decide(p.facts, ("eq0", res[0])) if res else None
        for e in p.ev:
            if e[0] == "store" and cell(e[1]):
                c = cell(e[1])
                if c[0] != what + "_buf" or c[1] != idx:
                    raise Wrong("%s writes %s" % (ty, pp(e[1])))
        if kind == "end" and z is True:
            continue
        for r in (0, 1):
            v = value_at(p, celllv(what + "_buf", idx, r))
            if v is None:
                raise Wrong("%s does not set the %s rail of %s_buf" % (ty, "HL"[r], what))
            fold(S, v, res, what, r, ty)
    miss = set(TYPES) - seen
    if miss:
        raise Wrong("events of type %s are not handled" % ", ".join(sorted(miss)))
    return n


def fold(S, v, res, what, r, ty):
    """v is the combination of the rail over all active events"""
    if v[0] != "end":
        raise Wrong("%s sets the %s rail of %s_buf to %s" % (ty, "HL"[r], what, pp(v)))
    L, x = S.loops[v[1]], v[2]
    init = L["vars"].get(x)
    cur = [(y, a, b) for y, (a, b) in L["vars"].items() if a in res]
    if not cur or cur[0][2] is None or cur[0][2] != ("node", L["id"], cur[0][1], "next"):
        raise Wrong("not every active event is combined at " + ty)
    node = cur[0][2]
    if init[0] != (F if what == "weak" else T):
        raise Wrong("the combination of the active %s events starts from %s" % (what, pp(init[0])))
    it = ("it", L["id"], x)
    item = ("ld", ("fld", ("ld", ("fld", node, "ep"), "-"), "HL"[r]), "-")
    item = norm(item)
    for p in L["paths"]:
        if p.end != "end":
            raise Wrong("not every active event is combined at " + ty)
        got = norm(p.env.get(x, it))
        want = Or(it, item) if what == "weak" else And(it, item)
        if not same(got, norm(want)):
            raise Wrong("the active %s events are combined as %s" % (what, pp(got)))
        for a, b in p.facts.items():
            if a not in L["before"].facts and a != ("eq0", node):
                raise Wrong("only some of the active events are combined at %s (%s)" % (ty, pp(a)))


# ---- (c) ----
def add_active(P, f):
    S = engine(P, {f.short})
    n = 0
    tbl, ep = ("arg", 0), ("arg", 1)
    key = norm(("ld", ("fld", ep, "nd_idx"), "-"))
    for p in S.paths(f):
        if p.end == "dead":
            continue
        n += 1
        ins = calls(p, "insert_hash")
        old = [e for e in p.ev if e[0] == "call" and e[1] == "find_hash"]
        if len(ins) != 1 or norm(ins[0][2][0]) != norm(tbl) or norm(ins[0][2][1]) != key:
            raise Wrong("the event is not entered under its node")
        new = ins[0][2][2]
        if new[0] != "new" or p.val != new:
            raise Wrong("the list returned is not the one entered")
        if norm(value_at(p, ("fld", new, "ep")) or ("none",)) != norm(ep):
            raise Wrong("the list entry does not hold the event")
        nx = value_at(p, ("fld", new, "next"))
        if not nx or nx[0] != "res" or nx[1] != "find_hash" or norm(nx[2]) != (norm(tbl), key):
            raise Wrong("the events that are active already are lost")
        z = decide(p.facts, ("eq0", nx))
        if z is not True:
            d = calls(p, "delete_hash")
            if not d or norm(d[0][2]) != (norm(tbl), key):
                raise Wrong("the old entry of the node stays in the table")
    return n


def delete_active(P, f):
    S = engine(P, {f.short})
    n = 0
    tbl, ep = ("arg", 0), ("arg", 1)
    key = norm(("ld", ("fld", ep, "nd_idx"), "-"))
    id_ = norm(("ld", ("fld", ep, "event_id"), "-"))
    for p in S.paths(f):
        if p.end == "dead":
            continue
        n += 1
        heads = {x for a in p.facts for x in subterms(a) if x[0] == "res" and x[1] == "find_hash"}
        if len(heads) != 1:
            raise Unsupported("list of active events")
        h, = heads
        if norm(h[2]) != (norm(tbl), key):
            raise Wrong("the list looked at is not the one of the event's node")
        eid = lambda nd: ("ld", ("fld", ("ld", ("fld", nd, "ep"), "-"), "event_id"), "-")
        nf = {norm(a): v for a, v in p.facts.items()}
        first = decide(nf, norm(eq_atom(norm(eid(h)), id_)))
        nxt = norm(("ld", ("fld", h, "next"), "-"))
        if first:
            if not calls(p, "delete_hash"):
                raise Wrong("the entry of the node is kept when its first event ends")
            ins = calls(p, "insert_hash")
            z = decide(nf, ("eq0", nxt))
            if z is not True and (not ins or norm(ins[0][2][2]) != nxt or norm(ins[0][2][1]) != key):
                raise Wrong("the events still active are lost when the first one ends")
            if z is True and ins:
                raise Wrong("an empty list is entered")
            if not (norm(p.val) == nxt or (z is True and p.val == ("int", 0))):
                raise Wrong("the events still active are not the ones returned")
            continue
        if first is None:
            raise Wrong("an event is deleted without regard to its identity")
        if norm(p.val) != norm(h):
            raise Wrong("the events still active are not the ones returned")
        st = [e for e in p.ev if e[0] == "store" and e[1][0] == "fld" and e[1][2] == "next"]
        if len(st) != 1 and any(e[0] == "store" for e in p.ev):
            raise Unsupported("how the event is taken out of the list")
        if len(st) != 1:
            raise Wrong("the event is not taken out of the list")
        prev = st[0][1][1]
        val = st[0][2]
        if not (val[0] == "ld" and val[1][0] == "fld" and val[1][2] == "next"):
            raise Wrong("the list is cut at the event that ends")
        cur = val[1][1]
        if calls(p, "delete_hash"):
            raise Wrong("the entry of the node is deleted although its first event is still active")
        mv = [S.loops[x[1]] for x in (prev, cur) if x[0] in ("end", "it", "node")]
        if len(mv) == 2 and mv[0] is mv[1] and cur[0] != "end":
            L = mv[0]
            names = [[y for y, (a, b) in L["vars"].items() if t in (("it", L["id"], y), b)] for t in (prev, cur)]
            if not all(names):
                raise Unsupported("search for the event")
            prev2, cur2 = ("end", L["id"], names[0][0]), ("end", L["id"], names[1][0])
        else:
            prev2, cur2 = prev, cur
        if prev2[0] == "end" and cur2[0] == "end" and prev2[1] == cur2[1]:
            L = S.loops[prev2[1]]
            ip, ic = L["vars"][prev2[2]][0], L["vars"][cur2[2]][0]
            if norm(ip) != norm(h) or norm(ic) != nxt:
                raise Wrong("the search for the event does not start at the second entry with the first one as its predecessor")
            for q in L["paths"]:
                if q.end != "end":
                    continue
                c0 = ("it", L["id"], cur2[2])
                lv = L["vars"][cur2[2]][1] or c0
                e_p, e_c = q.env.get(prev2[2]), q.env.get(cur2[2])
                if norm(e_p) != norm(lv) and e_p != c0:
                    raise Wrong("the predecessor is not kept during the search")
                if norm(e_c) not in (norm(("ld", ("fld", lv, "next"), "-")), norm(("ld", ("fld", c0, "next"), "-"))):
                    raise Wrong("the search skips entries")
        elif cur[0] in ("end", "node", "it") and norm(prev) == norm(h) and any(q.end == "end" for q in S.loops[cur[1]]["paths"]):
            raise Wrong("the predecessor is not kept during the search")
        elif cur[0] in ("end", "it", "node") or prev[0] in ("end", "it", "node"):
            raise Unsupported("search for the event")
        f2 = decide(nf, norm(eq_atom(norm(eid(cur)), id_)))
        if f2 is not True:
            raise Wrong("another event is deleted")
    return n


# ---- (d) ----
def event_buffer(P, f):
    S = engine(P, {f.short})
    en = enums(P)
    ps = S.paths(f)
    lists = {("arg", 2): "weak", ("arg", 3): "ant", ("arg", 4): "cons", ("arg", 5): "trace"}
    done = {}
    n = 0
    for L in allloops(S, ps):
        src = [(x, lists[a]) for x, (a, b) in L["vars"].items() if a in lists]
        if len(src) != 1:
            continue
        x, what = src[0]
        it = ("it", L["id"], x)
        t = ("app", "f_GET_CONS_HD", (it,))
        hd = lambda y: ("app", "f_GET_CONS_HD", (y,))
        tl = lambda y: ("app", "f_GET_CONS_TL", (y,))
        parts = []
        y = t
        names = {"weak": ["when", "name", "from", "to"], "ant": ["when", "name", "val", "from", "to"], "cons": ["when", "name", "val", "from", "to"],
                 "trace": ["name", "from", "to"]}[what]
        d = {}
        for i, nm in enumerate(names):
            d[nm] = hd(y) if i < len(names) - 1 else y
            y = tl(y) if i < len(names) - 1 else y
        gbv = lambda y: ("app", "GET_GBV", (y,))
        node = ("app", "name2idx", (("app", "f_GET_STRING", (d["name"],)),))
        fr, to = ("app", "GET_INT", (d["from"],)), ("app", "GET_INT", (d["to"],))
        for p in L["paths"]:
            if p.end == "dead":
                if calls(p, "longjmp"):
                    at, pol = ge_atom(node)
                    v = decide(p.facts, at)
                    if v is None or v == pol:
                        raise Wrong("the %s list fails although its node exists" % what)
                continue
            n += 1
            at, pol = ge_atom(node)
            v = decide(p.facts, at)
            if v is None or v != pol:
                raise Wrong("a node of the %s list that does not exist is not reported" % what)
            at, pol = ge_atom(add(fr, to, -1))
            v = decide(p.facts, at)
            empty = None if v is None else v == pol
            push = calls(p, "push_buf")
            if empty is None and push:
                raise Wrong("events of the %s list are made whether or not their interval is empty" % what)
            if empty:
                if push:
                    raise Wrong("events are made for an empty interval of the %s list" % what)
                if p.end != "end" or norm(p.env.get(x)) != tl(it):
                    raise Wrong("an empty interval ends the %s list" % what)
                continue
            acc = {"ant": "assertion_OK", "cons": "check_OK"}.get(what)
            if acc:
                w, val = gbv(d["when"]), gbv(d["val"])
                H, Lo = Or(Not(w), val), Or(Not(w), Not(val))
                A = [e for e in p.ev if e[0] == "store" and e[1] == ("fld", ("arg", 0), acc)]
                if not A:
                    raise Wrong("the consistency of the %s is not conjoined to %s" % (what, acc))
                base = [z for z in batoms(A[-1][2]) if z[0] == "ld" and z[1] == ("fld", ("arg", 0), acc)]
                if not base or not same(A[-1][2], And(base[0], Or(H, Lo))):
                    raise Wrong("%s becomes %s" % (acc, pp(A[-1][2])))
            elif what == "weak":
                H = Lo = gbv(d["when"])
            else:
                H = Lo = None
            if p.end == "ret":
                continue
            if p.end != "end" or norm(p.env.get(x)) != tl(it):
                raise Wrong("not every entry of the %s list is used" % what)
            evs = {}
            for c in push:
                o = c[2][1]
                o = o[1] if o[0] == "ref" else o
                i = p.ev.index(c)
                if o[0] != "new" or norm(c[2][0]) != ("arg", 1):
                    raise Unsupported("event")
                g = lambda q, o=o, i=i, p=p: value_at(p, ("fld", o, q), i)
                ty = g("type")
                evs.setdefault(ty[1] if ty and ty[0] == "int" else None, []).append((o, g))
            if set(evs) != {en["start_" + what], en["end_" + what]} or any(len(z) != 1 for z in evs.values()):
                raise Wrong("an entry of the %s list does not become one start and one end event" % what)
            (so, s), = evs[en["start_" + what]]
            (eo, e), = evs[en["end_" + what]]
            if so == eo:
                raise Wrong("start and end of a %s are the same event" % what)
            for g, tm, nm in ((s, fr, "start"), (e, to, "end")):
                if g("nd_idx") != node:
                    raise Wrong("the %s of a %s is for node %s" % (nm, what, pp(g("nd_idx") or ("?",))))
                if g("time") != tm:
                    raise Wrong("the %s of a %s is at time %s" % (nm, what, pp(g("time") or ("?",))))
            if s("event_id") is None or s("event_id") != e("event_id"):
                raise Wrong("start and end of a %s have different identities" % what)
            eid = s("event_id")
            nx = value_at(p, ("g", "event_id_cnt"))
            if not (eid[0] == "ld" and eid[1] == ("g", "event_id_cnt") and nx == add(eid, ("int", 1))) and not (nx == eid):
                raise Wrong("events of the %s list can have the same identity" % what)
            if H is not None:
                for nm, want in (("H", H), ("L", Lo)):
                    v = s(nm)
                    if v is None or not same(v, want):
                        raise Wrong("the %s rail of a %s is %s" % (nm, what, pp(v) if v else "not set"))
        done[what] = 1
        for p in L["paths"]:
            if p.end == "end" and not (("eq0", ("app", "VX_IS", (("str", "NIL"), it))) in p.facts):
                raise Wrong("the %s list is not read to its end" % what)
    for w in lists.values():
        if w not in done:
            raise Unsupported("the %s list is read in another way" % w)
    for p in ps:
        if p.end == "ret" and not any(e[0] == "some" for e in p.ev):
            q = calls(p, "qsort")
            if not q:
                raise Wrong("the events are not sorted")
            cmp_ = q[-1][2][3]
            if cmp_[0] != "fn":
                raise Unsupported("order of the events")
            order(P, P.funcs[cmp_[1]])
            n += 1
    return n


def order(P, f):
    """the array of events is in order of decreasing time"""
    S = engine(P, {f.short})
    t = [("ld", ("fld", ("ld", ("ind", ("arg", i)), "start"), "time"), "start") for i in (0, 1)]
    d = add(t[1], t[0], -1)
    for p in S.paths(f):
        if p.end != "ret":
            continue
        for sg in (1, -1):
            fs = dict(p.facts)
            # assume d > 0 (sg = 1) or d < 0
            at, pol = ge_atom(add(mul(d, ("int", sg)), ("int", -1)))
            if decide(fs, at) is (not pol) or decide(fs, ("eq0", eq_atom(d, ("int", 0))[1])) is True:
                continue
            fs[at] = pol
            v = p.val
            w, pol2 = ge_atom(add(mul(v, ("int", sg)), ("int", -1)))
            r = decide(fs, w)
            if r is None:
                raise Wrong("events at different times are not ordered by time (%s)" % pp(v))
            if r != pol2:
                raise Wrong("the events are not sorted by decreasing time")


# ---- (f) ----
def next_scan(S, p, i0, i1, buf):
    out = []
    for i, L in loops(S, p):
        if (i0 is None or i > i0) and (i1 is None or i < i1):
            k = scan(S, L, buf)
            if k is not None:
                out.append((i, L, k))
    return out


def simulate(P, f):
    S = engine(P, {f.short} | {"end_simulation"})
    # the clean-up is decided elsewhere
    S.opaque.add("end_simulation")
    S.widen = 6
    S.quiet = {"sscanf", "signal", "Sprintf", "snprintf", "sprintf"}
    S.keep = lambda a: a[0] in ("eq0", "ge0") and any(x[0] == "fld" and (x[2].startswith("has_") or x[2] in ("composite", "phase_delay")) for x in subterms(a))
    ps = S.paths(f)
    main = [L for L in allloops(S, ps) if any(calls(p, "do_combinational") and calls(p, "do_phase") for p in L["paths"])]
    if not main:
        raise Unsupported("no simulation loop")
    L = main[0]
    n = 0
    tv = []
    for x, (a, b) in L["vars"].items():
        if b is not None and b[0] in ("k", "lin") and b == add(a, ("k", L["id"])) and a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "time":
            tv.append((a, b))
    if not tv:
        raise Wrong("time does not advance by one from that of the first event")
    t0, t = tv[0]
    ev = ("g", "event_bufp")
    eb = G("event_bufp")
    at_ = lambda i: ("ld", ("fld", ("ld", ("ind", ("elt", eb, i)), "-"), "time"), "-")
    if norm(t0) != norm(at_(add(("ld", ("fld", eb, "buf_size"), "start"), ("int", -1)))):
        raise Wrong("the simulation starts at the time of %s" % pp(t0))
    end = norm(at_(("int", 0)))
    for s in L["leave"]:
        nf = {norm(a): v for a, v in s.facts.items()}
        at, pol = ge_atom(add(norm(end), norm(t), -1))
        v = decide(nf, at)
        if v is None or v == pol:
            raise Wrong("the simulation can stop before the last event")
    for p in L["paths"]:
        if p.end == "dead":
            continue
        n += 1
        # inside the interval
        nf = {norm(a): v for a, v in p.facts.items()}
        if decide(nf, ge_atom(add(norm(end), norm(t), -1))[0]) is None:
            a0 = ge_atom(add(add(norm(end), ("int", 1)), norm(t), -1))
            if decide(nf, a0[0]) is None:
                raise Wrong("the simulation does not run until the last event")
        dc = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "do_combinational"]
        if p.end == "end" and (len(dc) != 1):
            raise Wrong("a time step re-evaluates the circuit %d times" % len(dc))
        if not dc:
            continue
        dc = dc[0]
        pe = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "process_event"]
        if any(norm(e[2][0]) != norm(eb) for i, e in pe):
            raise Unsupported("event list")
        first = [(i, e) for i, e in pe if e[2][1] == t and i < dc]
        if not first:
            raise Wrong("the events of a time step are not handled before the circuit is re-evaluated")
        ch = [(i, M, k) for i, M, k in next_scan(S, p, first[-1][0], dc, "nodesp") if any(calls(q, "add_op_todo") or calls(q, "update_node") for q in M["paths"])]
        if not ch:
            raise Wrong("nodes whose constraints changed are not re-evaluated")
        for q in ch[-1][1]["paths"]:
            n += 1
            changed(S, q, ch[-1][2])
        res = ("res", "do_combinational", p.ev[dc][2], dc + 1)
        at, pol = ge_atom(res)
        v = decide(p.facts, at)
        stable = None if v is None else v == pol
        if p.end == "end" and stable is not True:
            raise Wrong("the values are used although the circuit did not stabilize")
        if p.end != "end":
            if stable is not True:
                continue
        cons = [(i, M, k) for i, M, k in next_scan(S, p, dc, None, "nodesp") if any(reads(q, "has_cons") for q in M["paths"])]
        if p.end == "end":
            if not cons:
                raise Wrong("the consequents are not checked after the circuit has been re-evaluated")
            for q in cons[0][1]["paths"]:
                n += 1
                check(q, cons[0][2])
            ph = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "do_phase"]
            if len(ph) != 1 or ph[0] < cons[0][0]:
                raise Wrong("the next phase is not entered once after the consequents have been checked")
            nx = [i for i, e in pe if e[2][1] == add(t, ("int", 1))]
            if not nx or not cons[0][0] < nx[0] < ph[0]:
                raise Wrong("the constraints of the next phase are not in place when its values are")
            if any(e[2][1] not in (t, add(t, ("int", 1))) for i, e in pe):
                raise Wrong("events of another time are handled")
    return n


def reads(p, field):
    return any(x[0] == "ld" and x[1][0] == "fld" and x[1][2] == field for a in p.facts for x in subterms(a))


def changed(S, p, k):
    nd = elt("nodesp", k)
    if p.end == "dead":
        return
    fl = flag(p, nd, "has_ant_or_weak_change")
    up, ad = calls(p, "update_node"), calls(p, "add_op_todo")
    if fl is False:
        return
    if p.end != "end":
        raise Wrong("not every node whose constraints changed is re-evaluated")
    comp = ("ld", ("fld", nd, "composite"), "start")
    at, pol = ge_atom(comp)
    v = decide(p.facts, at)
    driven = None if v is None else v == pol
    if value_at(p, ("fld", nd, "has_ant_or_weak_change")) != ("int", 0):
        raise Wrong("a node stays marked as changed")
    if driven:
        c = elt("compositesp", comp)
        dl = flag(p, c, "phase_delay")
        want_up = [("arg?", k, ("ld", celllv("next_buf", k, r), "-")) for r in (0, 1)]
        if dl is None:
            if up or not ad:
                raise Wrong("nodes that hold the value of the previous phase are treated like the others")
            raise Wrong("constraints that change on a delayed node are applied with the next phase's value")
        if dl:
            if len(up) != 1 or norm(up[0][2][1:]) != norm((k, ("ld", celllv("next_buf", k, 0), "-"), ("ld", celllv("next_buf", k, 1), "-"))):
                raise Wrong("a delayed node whose constraints changed is not given the value of the previous phase")
        elif len(ad) != 1 or norm(ad[0][2][0]) != norm(c):
            raise Wrong("the operation that drives a node whose constraints changed is not re-evaluated")
    elif eqc(p, comp, -1):
        if len(up) != 1 or up[0][2][1:] != (k, T, T):
            raise Wrong("an input whose constraints changed is not re-evaluated from the unknown value")
    elif driven is None:
        raise Wrong("a node is re-evaluated without regard to what drives it")


def check(p, k):
    nd = elt("nodesp", k)
    fl = flag(p, nd, "has_cons")
    st = [e for e in p.ev if e[0] == "store" and e[1][0] == "fld" and e[1][2] == "checkTrajectory"]
    if fl is False:
        if st:
            raise Wrong("a node without consequent is checked")
        return
    if not st:
        raise Wrong("a consequent is not checked")
    v = norm(st[-1][2])
    base = [z for z in batoms(v) if z[0] == "ld" and z[1][0] == "fld" and z[1][2] == "checkTrajectory"]
    want = base[0] if base else T
    for r in (0, 1):
        want = And(want, Or(Not(("ld", celllv("cur_buf", k, r), "-")), ("ld", celllv("cons_buf", k, r), "-")))
    if not base or not same(v, norm(want)):
        raise Wrong("the check becomes %s" % pp(v))


# ---- (g) ----
def phase(P, f):
    S = engine(P, {f.short})
    n = 0
    for p in S.paths(f):
        if p.end == "dead":
            continue
        sc = [x for x in next_scan(S, p, None, None, "nodesp") if any(calls(q, "update_node") for q in x[1]["paths"])]
        if not sc:
            raise Wrong("entering a phase does not visit every node")
        if len(sc) > 1:
            raise Unsupported("more than one pass over the nodes")
        i, L, k = sc[0]
        nd = elt("nodesp", k)
        comp = ("ld", ("fld", nd, "composite"), "start")
        for q in L["paths"]:
            n += 1
            if q.end == "dead":
                continue
            if q.end != "end":
                raise Wrong("not every node enters the phase")
            up = calls(q, "update_node")
            const = decide(q.facts, ge_atom(add(k, ("int", -4)))[0])
            inp = eqc(q, comp, -1)
            ev = flag(q, nd, "has_phase_event")
            if inp and const:
                if len(up) != 1 or up[0][2][1:] != (k, T, T):
                    raise Wrong("an input does not become unknown in the next phase")
                continue
            if ev is False:
                if up:
                    raise Wrong("a node without a new value changes with the phase")
                continue
            if ev is None and not up:
                raise Wrong("a node with a new value does not take it with the phase")
            if ev is None:
                raise Wrong("a node is updated whether or not it has a new value")
            if len(up) != 1 or norm(up[0][2][1:]) != norm((k, ("ld", celllv("next_buf", k, 0), "-"), ("ld", celllv("next_buf", k, 1), "-"))):
                raise Wrong("a delayed node does not take its next value with the phase")
            if value_at(q, ("fld", nd, "has_phase_event")) != ("int", 0):
                raise Wrong("a delayed node keeps its mark, so that it is taken for new in every later phase")
    return n


# ---- (h) ----
def ilist_index(S, t):
    """the list of nodes a term runs through, in order"""
    if t[0] != "it":
        return None
    L = S.loops.get(t[1])
    if L is None:
        return None
    a = L["vars"][t[2]][0]
    if not (a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "from" and a[1][1][0] == "node" and a[1][1][3] == "next"):
        return None
    nd = norm(a[1][1])
    fr = ("ld", ("fld", nd, "from"), "-")
    to = ("ld", ("fld", nd, "to"), "-")
    for p in L["paths"]:
        if p.end != "end":
            return None
        nf = {norm(x): v for x, v in p.facts.items()}
        d = add(p.env[t[2]], t, -1)
        at, pol = ge_atom(add(add(fr, to, -1), ("int", -1)))
        down = decide(nf, at)
        down = None if down is None else down == pol
        if d not in (("int", 1), ("int", -1)) or down is None or (d == ("int", -1)) != down:
            return None
    return nd[2]


def inner(S, p, chain=()):
    """(loop path, chain) of the innermost loops below a path"""
    out = []
    for i, L in loops(S, p):
        for q in L["paths"]:
            out.append((L, q, chain + (L,)))
            out += inner(S, q, chain + (L,))
    return out


def operation(P, f):
    S = engine(P, {f.short})
    n = 0
    op = ("arg", 1)
    lst = lambda nm: norm(("ld", ("fld", op, nm), "-"))
    for p in S.paths(f):
        if p.end == "dead":
            continue
        n += 1
        call = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "->op"]
        if len(call) != 1 or p.ev[call[0]][2] != (op,):
            raise Wrong("the operation is evaluated %d times on a path" % len(call))
        c = call[0]
        ins = outs = False
        for i, L in loops(S, p):
            body = [(M, q) for M, q, ch in inner(S, p) if ch[0] is L or M is L]
            body = [(M, q) for M, q, ch in inner(S, p) if ch[0] is L and (calls(q, "push_buf") or calls(q, "update_node") or any(e[0] == "store" and cell(e[1]) for e in q.ev))]
            if not body:
                continue
            if i < c:
                for M, q in body:
                    pb = calls(q, "push_buf")
                    vals = [norm(x[2][1][1] if x[2][1][0] == "ref" else x[2][1]) for x in pb]
                    to = {x[2][0] for x in pb}
                    if to == {("&", ("g", "inps_buf"))}:
                        idx = None
                        for v in vals:
                            z = cell(v[1]) if v[0] == "ld" else None
                            idx = idx or (z and z[1])
                        l = ilist_index(S, idx) if idx else None
                        if idx is None or l is None:
                            raise Unsupported("order of the inputs")
                        if norm(l) != lst("inps"):
                            raise Wrong("the operation reads the values of " + pp(l))
                        want = [norm(("ld", celllv("cur_buf", idx, r), "-")) for r in (0, 1)]
                        if vals != want:
                            raise Wrong("the rails of an input are handed over as " + ", ".join(map(pp, vals)))
                        ins = True
            else:
                for M, q in body:
                    outs = True
                    dl = flag(q, op, "phase_delay")
                    if dl is None:
                        dl = flag(p, op, "phase_delay")
                    up = calls(q, "update_node")
                    st = [e for e in q.ev if e[0] == "store" and cell(e[1])]
                    if dl is None:
                        raise Wrong("delayed and immediate results are treated alike")
                    if dl:
                        if up:
                            raise Wrong("a delayed result is given to its node at once")
                        cs = {cell(e[1]): e[2] for e in st}
                        ks = sorted(cs, key=lambda z: z[2])
                        if len(ks) != 2 or any(z[0] != "next_buf" for z in ks) or ks[0][1] != ks[1][1] or [z[2] for z in ks] != [0, 1]:
                            raise Wrong("a delayed result is not kept for the next phase")
                        idx = ks[0][1]
                        vals = [cs[z] for z in ks]
                        if value_at(q, ("fld", elt("nodesp", idx), "has_phase_event")) != ("int", 1):
                            raise Wrong("a delayed result is not marked for the next phase")
                    else:
                        if len(up) != 1 or up[0][2][0] != ("arg", 0):
                            raise Wrong("a result does not reach its node")
                        idx, vals = up[0][2][1], list(up[0][2][2:4])
                    l = ilist_index(S, idx)
                    if l is None:
                        raise Unsupported("order of the results")
                    if norm(l) != lst("outs"):
                        raise Wrong("the results are given to the nodes of " + pp(l))
                    pos = []
                    for v in vals:
                        if v[0] != "ld" or v[1][0] != "ind":
                            raise Unsupported("result")
                        cst, d = lin(v[1][1])
                        b = [u for u in d if u == G("gbv_outs") or (u[0] == "ld" and u[1] == ("g", "gbv_outs"))]
                        b += [u for u in d if u[0] == "elt" and u[1] == ("&", ("g", "outs_buf"))]
                        if not b:
                            raise Wrong("a result is read from " + pp(v))
                        pos.append(add(v[1][1], b[0], -1))
                    if add(pos[1], pos[0], -1) != ("int", 1):
                        raise Wrong("the rails of a result are exchanged or shifted")
                    # two cells per result
                    k = ("k", M["id"])
                    if not contains(pos[0], k):
                        raise Unsupported("position of the results")
                    if add(subst(pos[0], k, add(k, ("int", 1))), pos[0], -1) != ("int", 2):
                        raise Wrong("successive results are not read from successive pairs of cells")
        if not ins:
            raise Wrong("the values of the inputs are not handed to the operation")
        if not outs:
            raise Wrong("the results of the operation are not used")
    return n


# ---- (i) ----
def combinational(P, f):
    S = engine(P, {f.short})
    ps = S.paths(f)
    n = 0
    ops = [L for L in allloops(S, ps) if any(calls(q, "do_wl_op") for q in L["paths"])]
    if not ops:
        raise Unsupported("no loop over the scheduled operations")
    for L in ops:
        for q in L["paths"]:
            c = calls(q, "do_wl_op")
            pb = calls(q, "pop_buf")
            if q.end == "dead":
                continue
            n += 1
            if q.end == "end":
                if len(c) != 1 or len(pb) != 1:
                    raise Wrong("a scheduled operation is not evaluated once")
                o = c[0][2][1]
                if o[0] != "out" or o[1] != "pop_buf":
                    raise Wrong("the operation evaluated is not the one taken from the schedule")
                fl = [i for i, e in enumerate(q.ev) if e[0] == "store" and e[1] == ("fld", o, "flag")]
                ci = q.ev.index(c[0])
                if not fl or q.ev[fl[-1]][2] != ("int", 0):
                    raise Wrong("an operation stays marked as scheduled, so that it is never scheduled again")
                if fl[-1] > ci:
                    raise Wrong("an operation is unmarked only after its evaluation, which loses what it scheduled itself")
            elif q.end == "ret":
                if q.val is None or q.val[0] != "int" or q.val[1] >= 0:
                    raise Wrong("an interrupted evaluation is not reported")
    # rank loops
    sweep = None
    for L in allloops(S, ps):
        if L in ops:
            continue
        inn = [M for q in L["paths"] for _, M in loops(S, q)]
        if any(M is o for M in inn for o in ops):
            sweep = L
    if sweep is None:
        raise Unsupported("no sweep over the ranks")
    k = ("k", sweep["id"])
    size = ("ld", ("fld", G("sim_wheel_bufp"), "buf_size"), "start")
    rk = [b for a, b in sweep["vars"].values() if b in (add(add(size, ("int", -1)), k, -1), k)]
    if not rk:
        raise Wrong("the sweep does not start at the first rank")
    rank = rk[0]
    nxt = add(rank, ("int", -1 if rank != k else 1))
    bucket = ("fld", ("elt", G("sim_wheel_bufp"), rank), "buf_size")
    emp = [x for x, (a, b) in sweep["vars"].items() if b is None and any(q.env.get(x) == ("int", 0) or q.env.get(x) == ("int", 1) for q in sweep["paths"])]
    for q in sweep["paths"]:
        if q.end == "break":
            raise Wrong("a sweep over the ranks can stop early")
        if q.end == "dead" or q.end == "ret":
            continue
        n += 1
        # the sweep goes on iff ranks are left
        bad = nxt if rank != k else None
        z = [v for a, v in q.facts.items() if a[0] in ("ge0", "eq0") and contains(a, bucket)]
        has = any(e[0] == "loop" for e in q.ev)
        if not z and not has:
            raise Unsupported("test of a rank")
    # the bound of the sweep: ranks down to 0
    if rank != k:
        okb = False
        e_at, e_pol = ge_atom(("end", sweep["id"], [x for x, (a, b) in sweep["vars"].items() if b == rank][0]))
        for p in ps:
            pass
        for (e, p, i, ch) in events(S, ps):
            if e[0] == "loop" and e[1] == sweep["id"]:
                v = decide(p.facts, e_at)
                if v is not None and v != e_pol:
                    okb = True
        if not okb:
            raise Wrong("the sweep does not go down to rank 0")
    # the function ends only after a sweep that found nothing
    for p in ps:
        if p.end == "ret" and not (p.val and p.val[0] == "int" and p.val[1] < 0):
            lo = loops(S, p)
            if not lo:
                raise Wrong("evaluation can end without a sweep")
            M = lo[-1][1]
            ids = {M["id"]} | {L["id"] for L in allloops(S, [p])}
            if not any(x[0] in ("end", "it") and x[1] in ids and x[2] in sweep["vars"] and x[2] not in [y for y, (a, b) in sweep["vars"].items() if b == rank]
                       for a in p.facts for x in subterms(a) if isinstance(x, tuple) and len(x) == 3):
                raise Wrong("the evaluation ends whether or not the sweep evaluated operations")
            ex = [(x, decide(p.facts, ("eq0", (w, M["id"], x)))) for x in M["vars"] for w in ("end", "it")]
            ex = [(x, v) for x, v in ex if v is not None and x in sweep["vars"] and sweep["vars"][x][0][0] == "int"]
            if not ex:
                raise Unsupported("end of the evaluation")
            x, zero = ex[0]
            y = sweep["vars"].get(x)
            if (y[0][1] == 0) != zero:
                raise Wrong("a sweep is taken to find nothing because an earlier one did")
            for q in sweep["paths"]:
                if q.end != "end":
                    continue
                v = q.env.get(x)
                if any(e[0] == "loop" for e in q.ev):
                    if v is not None and v[0] == "end" and v[1] in S.loops and v[2] == x:
                        vs = [z.env.get(x) for z in S.loops[v[1]]["paths"] if z.end == "end"]
                        v = vs[0] if vs and all(z == vs[0] for z in vs) else None
                    if v is not None and v[0] == "int" and (v[1] == 0) == zero or v == ("it", sweep["id"], x):
                        raise Wrong("the evaluation ends although a sweep evaluated operations")
                    if v is None or v[0] != "int":
                        raise Unsupported("end of the evaluation")
            n += 1
    return n


def todo(P, f):
    S = engine(P, {f.short})
    n = 0
    c = ("arg", 0)
    for p in S.paths(f):
        if p.end == "dead":
            continue
        n += 1
        fl = flag(p, c, "flag")
        push = calls(p, "push_buf")
        if fl:
            continue
        want = norm(("elt", G("sim_wheel_bufp"), ("ld", ("fld", c, "rank"), "-")))
        if len(push) != 1 or norm(push[0][2][0]) != want or push[0][2][1] not in (("ref", c), ("&", c)):
            raise Wrong("an operation that is not scheduled yet is not entered at its rank")
        if value_at(p, ("fld", c, "flag")) != ("int", 1):
            raise Wrong("a scheduled operation is not marked")
    return n


# ---- (j) ----
def init(P, f):
    S = engine(P, {f.short})
    ps = S.paths(f)
    n = 0
    for p in ps:
        if p.end == "dead":
            continue
        first = None
        for i, L in loops(S, p):
            if any(calls(q, "do_combinational") for q in L["paths"]):
                first = i
                break
        for i, e in enumerate(p.ev):
            if e[0] == "some" and any(calls(q, "do_combinational") for q in S.loops[e[1]]["paths"]):
                first = i if first is None else min(first, i)
        cleared = set()
        ops = False
        for i, L in loops(S, p):
            if first is not None and i > first:
                break
            k = scan(S, L, "nodesp")
            if k is not None:
                sets = []
                for q in L["paths"]:
                    if q.end == "dead":
                        continue
                    sets.append({e[1][2] for e in q.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1] == elt("nodesp", k) and e[2] == ("int", 0)})
                if sets:
                    cleared |= set.intersection(*sets)
            k = scan(S, L, "compositesp")
            if k is not None:
                ok = True
                for q in L["paths"]:
                    c = elt("compositesp", k)
                    cl = [j for j, e in enumerate(q.ev) if e == ("store", ("fld", c, "flag"), ("int", 0))]
                    ad = [j for j, e in enumerate(q.ev) if e[0] == "call" and e[1] == "add_op_todo" and norm(e[2][0]) == norm(c)]
                    if not ad:
                        raise Wrong("not every operation is evaluated initially")
                    if not cl or cl[0] > ad[0]:
                        raise Wrong("a mark left by an earlier run keeps an operation from being evaluated initially")
                ops = ops or ok
        n += 1
        for w in ("has_phase_event", "has_weak", "has_ant", "has_cons", "has_trace", "has_ant_or_weak_change"):
            if w not in cleared:
                raise Wrong("%s of an earlier run is still set on some nodes" % w)
        if not ops:
            raise Wrong("not every operation is evaluated initially")
    # propagation until nothing changes
    for L in allloops(S, ps):
        for q in L["paths"]:
            c = calls(q, "do_combinational")
            if not c:
                continue
            n += 1
            res = ("res", "do_combinational", c[0][2], q.ev.index(c[0]) + 1)
            at, pol = ge_atom(res)
            v = decide(q.facts, at)
            ok = None if v is None else v == pol
            if q.end == "end":
                if ok is not True:
                    raise Wrong("initial values are used although the circuit did not stabilize")
                pos = decide(q.facts, ge_atom(add(res, ("int", -1)))[0])
                pos = None if pos is None else pos == ge_atom(add(res, ("int", -1)))[1]
                ph = calls(q, "do_phase")
                if pos is not False and not ph:
                    raise Wrong("delayed values are not propagated initially")
                if pos is not False and q.again == [False]:
                    raise Wrong("initial propagation stops although values changed")
    for p in ps:
        if p.end == "ret" and p.val == ("int", 1):
            for e in p.ev:
                if e[0] == "some":
                    raise Wrong("initialization succeeds in the middle of propagation")
    return n


# ---- (l) ----
def result(P, f):
    S = engine(P, {f.short})
    n = 0
    seen = set()
    for p in S.paths(f):
        out = calls(p, "MAKE_REDEX_GBV")
        if not out:
            continue
        n += 1
        v = out[-1][2][1]
        v = norm(v)
        base = {x for x in batoms(v)}
        stes = {x[1][1] for x in base if x[0] == "ld" and x[1][0] == "fld"}
        flags = [a[1][2][1][1] for a, t in p.facts.items() if t and a[0] == "eq0" and a[1][0] == "app" and a[1][1] == "strcmp" and a[1][2][1][0] == "str"]
        if len(stes) != 1 or len(flags) != 1:
            if len(stes) > 1:
                raise Wrong("the result mixes several runs")
            raise Unsupported("how the result is chosen")
        ste, = stes
        g = lambda x: ("ld", ("fld", ste, x), "-")
        A, V, C, K = g("assertion_OK"), g("validTrajectory"), g("check_OK"), g("checkTrajectory")
        want = {"antOK": A, "trajOK": V, "consOK": C, "checkOK": K, "implies": Or(Not(A), Or(Not(V), And(K, C))), "strong": And(And(A, V), And(K, C)),
                "": And(And(A, V), And(K, C))}.get(flags[0])
        if want is None:
            continue
        seen.add(flags[0])
        if not same(v, want):
            raise Wrong("the result \"%s\" is %s" % (flags[0], pp(v)))
    if len(seen) < 5:
        raise Unsupported("how the result is chosen")
    return n


def newste(P, f):
    """a new run starts with everything true"""
    S = engine(P, {f.short})
    n = 0
    for p in S.paths(f):
        if p.end != "ret":
            continue
        n += 1
        for x in ("validTrajectory", "checkTrajectory", "assertion_OK", "check_OK"):
            st = [e for e in p.ev if e[0] == "store" and e[1][0] == "fld" and e[1][2] == x]
            if not st or st[-1][2] != T:
                raise Wrong("%s does not start out true" % x)
    return n


def buffers(P, f):
    S = engine(P, {f.short})
    n = 0
    want = {"weak_buf": (F, F), "ant_buf": (T, T), "cons_buf": (T, T), "cur_buf": (T, T), "next_buf": (T, T)}
    S.opaque.add("allocate_value_buf")
    S.readers.add("allocate_value_buf")
    for p in S.paths(f):
        if p.end != "ret":
            continue
        n += 1
        got = {}
        for e in p.ev:
            if e[0] == "store" and e[1][0] == "g" and e[1][1] in want and e[2][0] == "res":
                got[e[1][1]] = e[2]
        for b in ("cur_buf", "next_buf"):
            if b in got and got[b][2][1:] != want[b]:
                raise Wrong("%s does not start out unknown" % b)
        cur = got.get("cur_buf")
        if cur is None:
            raise Unsupported("allocation of the values")
        cs = {}
        for e in p.ev:
            if e[0] == "store" and e[1][0] == "ind":
                d = add(e[1][1], cur, -1)
                if d[0] == "int":
                    cs[d[1]] = e[2]
        for i, v in enumerate((F, T, T, F, T, T, F, F)):
            g = cs.get(i, T)
            if g != v:
                raise Wrong("the built-in constant %d has %s as its %s rail" % (i // 2, pp(g), "HL"[i % 2]))
    return n


OBLIGATIONS = [("update_node", update_node, "node"), ("process_event", process_event, "events"), ("add_active_event", add_active, "events"),
               ("delete_active_event", delete_active, "events"), ("create_event_buffer", event_buffer, "constraints"), ("gSTE", simulate, "step"),
               ("do_phase", phase, "phase"), ("do_wl_op", operation, "schedule"), ("do_combinational", combinational, "schedule"), ("add_op_todo", todo, "schedule"),
               ("initialize", init, "initial"), ("create_ste", newste, "initial"), ("allocate_ste_buffers", buffers, "initial"), ("gen_get_ste_result", result, "verdict")]
