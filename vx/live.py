"""Live local variables at each node of a function's graph."""
from .facts import *
from .cfg import cfg, order


def uses_defs(n):
    """(read, certainly assigned before any read) locals of a node"""
    rd, wr = set(), set()
    if n.kind == "d":
        name, init = n.expr[0], n.expr[2]
        if init is not None:
            reads(init, rd, wr)
        if name not in rd:
            wr.add(name)
        return rd, wr
    if n.expr is not None and not isinstance(n.expr, tuple) or (isinstance(n.expr, (list, tuple)) and n.kind != "d"):
        if n.expr is not None:
            reads(n.expr, rd, wr)
    return rd, wr


def reads(e, rd, wr):
    e = strip(e)
    if e is None:
        return
    if e[0] == "var":
        if e[4] in ("l", "p") and e[3] not in wr:
            rd.add(e[3])
        return
    if e[0] == "bin" and e[3] == "=":
        l = strip(e[4])
        reads(e[5], rd, wr)
        if l[0] == "var" and l[4] in ("l", "p"):
            if l[3] not in rd:
                wr.add(l[3])
        else:
            reads(l, rd, wr)
        return
    if e[0] == "bin" and e[3] in ("&&", "||"):
        reads(e[4], rd, wr)
        reads(e[5], rd, set(wr))
        return
    if e[0] == "cond":
        reads(e[3], rd, wr)
        reads(e[4], rd, set(wr))
        reads(e[5], rd, set(wr))
        return
    for s in subexprs(e):
        if s is not None and s is not e:
            reads(s, rd, wr)


def live_out(P, f):
    """node id -> locals live after the node (variables whose address is taken are always live)"""
    if getattr(f, "_vx_live", None) is not None:
        return f._vx_live
    return _live(P, f)


# copy what the pointer refers to during the call only
COPIES = {"push_buf", "pop_buf", "store_buf", "insert_buf"}
_cache = {}


def _live(P, f):
    k = (id(P), f.name)
    if k in _cache:
        return _cache[k]
    g = cfg(P, f)
    ud = {n.id: uses_defs(n) for n in g.nodes}
    taken, passed = set(), set()
    for e in calls_of(f):
        n = callee(e)
        if n is not None and n.lower() in COPIES:
            for a in e[4]:
                a = strip(a)
                if a is not None and a[0] == "un" and a[3] == "&" and strip(a[4])[0] == "var":
                    passed.add(id(a))
    for e in all_exprs(f):
        if id(e) in passed:
            continue
        if e[0] == "un" and e[3] == "&":
            b = strip(e[4])
            while b[0] in ("mem", "idx") and not (b[0] == "mem" and b[5]):
                b = strip(b[3])
            if b[0] == "var":
                taken.add(b[3])
    inn = {n.id: set() for n in g.nodes}
    out = {n.id: set() for n in g.nodes}
    work = list(g.nodes)
    on = {n.id for n in work}
    while work:
        n = work.pop()
        on.discard(n.id)
        o = set()
        for s, _ in n.succ:
            o |= inn[s.id]
        out[n.id] = o
        rd, wr = ud[n.id]
        i = rd | (o - wr)
        if i != inn[n.id]:
            inn[n.id] = i
            for p, _ in n.pred:
                if p.id not in on:
                    on.add(p.id)
                    work.append(p)
    res = {k2: frozenset(v | taken) for k2, v in out.items()}
    _cache[k] = res
    return res
