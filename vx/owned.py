"""Ownership of local resources: what a function sets up in a local variable
and takes down on one way out, it takes down exactly once on every way out;
what it saves of the interpreter's settings and restores on one way out, it
restores on every way out."""
from .facts import *
from .cfg import cfg, order
from .paths import PathFlow, const, base

# set up by, taken down by (first argument: the address of the variable)
BYADDR = {
    "new_buf": "buffer", "free_buf": "buffer",
    "create_hash": "hash table", "dispose_hash": "hash table",
    "new_mgr": "record manager", "free_mgr": "record manager",
    "new_ustrmgr": "string manager", "free_ustrmgr": "string manager", "new_strmgr": "string manager", "free_strmgr": "string manager",
}
UP = {"new_buf", "create_hash", "new_mgr", "new_ustrmgr", "new_strmgr"}
DOWN = {"free_buf", "dispose_hash", "free_mgr", "free_ustrmgr", "free_strmgr"}
# set up as a result, taken down as an argument
BYVAL = {"fopen": "file", "fdopen": "file", "fmemopen": "file", "open_memstream": "file", "popen": "pipe", "opendir": "directory",
         "tmpfile": "file", "Open_file": "file"}
VDOWN = {"fclose", "pclose", "closedir"}


class OwnFlow(PathFlow):
    """client state: frozenset of (variable, state); state: 'u' set up, 'd' taken down"""

    def __init__(self, P, f, vars, vals, report, saved={}):
        super().__init__(P, f, cap=128)
        self.sv = saved
        self.svl = {v: g for g, v in saved.items()}
        self.vars, self.vals, self.rep = vars, vals, report
        self.reset = set()      # variables that outlive the function taken down before they are set up

    def get(self, c, v):
        for a, b in c:
            if a == v:
                return b
        return None

    def put(self, c, v, s):
        return frozenset(x for x in c if x[0] != v) | ({(v, s)} if s else frozenset())

    def addr(self, e):
        e = strip(e)
        if e is not None and e[0] == "un" and e[3] == "&":
            b = strip(e[4])
            if b[0] == "var" and b[3] in self.vars:
                return b[3]
        return None

    def saving(self, v, e, c):
        """a local takes a setting: from now on changes have to be undone"""
        if v in self.svl and setting(e) == self.svl[v]:
            g = self.svl[v]
            return self.put(c, g, "changed" if g.startswith("signal ") else "saved")
        return c

    def decl(self, name, ti, init, c):
        if init is not None:
            c = self.saving(name, init, c)
        if name in self.vals and init is not None:
            c = self.bind(name, init, c)
        if name in self.vars:
            c = self.put(c, name, None)
        return c

    def bind(self, v, e, c):
        e = strip(e)
        if e[0] == "call" and callee(e) in BYVAL:
            return self.put(c, v, "u")
        return self.put(c, v, None)

    def event(self, x, c):
        if x[0] == "bin" and x[3] == "=":
            l = strip(x[4])
            if l[0] == "var" and l[3] in self.svl:
                return self.saving(l[3], x[5], c)
            if l[0] == "var" and l[3] in self.sv:
                r = strip(x[5])
                if r[0] == "var" and r[3] == self.sv[l[3]]:
                    return self.put(c, l[3], None)
                if self.get(c, l[3]) == "saved":
                    return self.put(c, l[3], "changed")
                return c
            if l[0] == "var" and l[3] in self.vals:
                return self.bind(l[3], x[5], c)
            r = strip(x[5])
            if r[0] == "var" and (r[3] in self.vars or r[3] in self.vals):
                return self.put(c, r[3], None)        # moved
            a = self.addr(x[5])
            if a:
                return self.put(c, a, None)
            return c
        if x[0] != "call":
            return c
        n, a = callee(x), x[4]
        if n == "signal":
            g = signame(x)
            v = strip(a[1])
            if g in self.sv and v[0] == "var" and v[3] == self.sv[g]:
                return self.put(c, g, None)
            return c
        if n in UP and a:
            v = self.addr(a[0])
            if v:
                return self.put(c, v, "u")
        elif n in DOWN and a:
            v = self.addr(a[0])
            if v:
                if self.get(c, v) is None and '#' not in v:
                    self.reset.add(v)
                if self.get(c, v) == "d":
                    self.rep(x[1], "twice", v, "the %s is taken down twice" % BYADDR[n])
                return self.put(c, v, "d")
        elif n in VDOWN and a:
            v = strip(a[0])
            if v[0] == "var" and v[3] in self.vals:
                if self.get(c, v[3]) == "d":
                    self.rep(x[1], "twice", v[3], "closed twice")
                return self.put(c, v[3], "d")
        else:
            # a callee that puts the setting back from its parameter, or sets up, takes down or closes it
            done = set()
            for g in always(self.P, n):
                i = g[1]
                if g[0].startswith("?") and i < len(a):
                    v = self.addr(a[i])
                    s = strip(a[i])
                    v = v or (s[3] if s[0] == "var" and s[3] in self.vals else None)
                    if v:
                        c = self.put(c, v, None)      # perhaps; its own matter
                        done.add(i)
                    continue
                if g[0].startswith("$") and i < len(a):
                    v = self.addr(a[i])
                    s = strip(a[i])
                    if v and g[0][1:] in UP:
                        c = self.put(c, v, "u")
                    elif v and g[0][1:] in DOWN:
                        if self.get(c, v) == "d":
                            self.rep(x[1], "twice", v, "the %s is taken down twice" % BYADDR[g[0][1:]])
                        c = self.put(c, v, "d")
                    elif g[0][1:] in VDOWN and s[0] == "var" and s[3] in self.vals:
                        v = s[3]
                        if self.get(c, v) == "d":
                            self.rep(x[1], "twice", v, "closed twice")
                        c = self.put(c, v, "d")
                    else:
                        continue
                    done.add(i)
                    continue
                if g[0] in self.sv and i < len(a) and strip(a[i])[0] == "var" and strip(a[i])[3] == self.sv[g[0]]:
                    c = self.put(c, g[0], None)
            for i, e in enumerate(a):
                if i in done:
                    continue
                v = self.addr(e)
                if v and self.get(c, v) == "d":
                    self.rep(x[1], "after", v, "used after it was taken down (%s)" % show(x))
                s = strip(e)
                if s is not None and s[0] == "var" and s[3] in self.vals:
                    if self.get(c, s[3]) == "d":
                        self.rep(x[1], "after", s[3], "used after it was closed (%s)" % show(x))
                if v and n in ("push_buf", "insert_buf"):
                    c = self.put(c, v, None)
        return c

    def assume(self, e, truth, c):
        # a failed open leaves nothing to close
        e = strip(e)
        t = truth
        while e[0] == "un" and e[3] == "!":
            e, t = strip(e[4]), not t
        if e[0] == "bin" and e[3] in ("==", "!=") and const(e[5]) == 0:
            t = t == (e[3] == "!=")
            e = strip(e[4])
        if e[0] == "bin" and e[3] == "=":
            e = strip(e[4])
        if e[0] == "var" and e[3] in self.vals and not t:
            return self.put(c, e[3], None)
        return c


def locals_of(P, f):
    """(locals set up and taken down by address, by value)"""
    up, down, vup, vdown = set(), set(), set(), set()
    loc = set()
    for s in stmts(f.body):
        if s[0] == "decl":
            for d in s[2]:
                loc.add(d[0])
                if d[2] is not None and strip(d[2])[0] == "call" and callee(strip(d[2])) in BYVAL:
                    vup.add(d[0])
    for e in all_exprs(f):
        if e[0] == "call":
            n, a = callee(e), e[4]
            ops = [(n, 0)] if n in UP | DOWN | VDOWN else [(g[1:], i) for g, i in always(P, n) if g.startswith("$")]
            for n, i in ops:
                if n in VDOWN or i >= len(a):
                    continue
                v = strip(a[i])
                if v[0] == "un" and v[3] == "&" and strip(v[4])[0] == "var":
                    (up if n in UP else down).add(strip(v[4])[3])
            for n, i in ops:
                if n in VDOWN and i < len(a):
                    v = strip(a[i])
                    if v[0] == "var" and v[4] == "l":
                        vdown.add(v[3])
        if e[0] == "bin" and e[3] == "=" and strip(e[4])[0] == "var" and strip(e[4])[4] == "l":
            r = strip(e[5])
            if r[0] == "call" and callee(r) in BYVAL:
                vup.add(strip(e[4])[3])
    return up, down, vup, vdown


def saved(P, f):
    """{global: local} of settings saved in a local variable and put back from it"""
    take, back = {}, {}
    for s in stmts(f.body):
        if s[0] == "decl":
            for d in s[2]:
                if d[2] is not None:
                    g = setting(d[2])
                    if g:
                        take[d[0]] = g
    for e in all_exprs(f):
        if e[0] == "bin" and e[3] == "=":
            l, r = strip(e[4]), strip(e[5])
            if l[0] == "var" and l[4] == "l":
                g = setting(e[5])
                if g:
                    take.setdefault(l[3], g)
            if l[0] == "var" and l[4] in ("g", "s") and r[0] == "var" and r[4] == "l":
                back[l[3]] = r[3]
        if e[0] == "call" and callee(e) == "signal" and strip(e[4][1])[0] == "var" and strip(e[4][1])[4] == "l":
            back[signame(e)] = strip(e[4][1])[3]
        elif e[0] == "call" and callee(e) in P.funcs:
            for g, i in always(P, callee(e)):
                if i < len(e[4]) and strip(e[4][i])[0] == "var" and strip(e[4][i])[4] == "l" and take.get(strip(e[4][i])[3]) == g:
                    back.setdefault(g, strip(e[4][i])[3])
    return {g: v for g, v in back.items() if take.get(v) == g}


def always(P, n, memo={}, busy=set()):
    """{(setting or operation, index of the parameter)}: what a function does with its parameters on every way out --
    puts a setting back from it, or sets up, takes down or closes what it points to"""
    if n not in P.funcs:
        return ()
    k = (id(P), n)
    if k in memo:
        return memo[k]
    if n in busy:
        return ()
    busy.add(n)
    f = P.funcs[n]
    pos = {p[0]: i for i, p in enumerate(f.params)}
    at = {}

    def note(e, g, node):
        at.setdefault(g, set()).add(node.id)
    gr = cfg(P, f)
    for node in gr.nodes:
        ex = node.expr if node.kind != "d" else (node.expr[2] if node.expr else None)
        if ex is None:
            continue
        for e in walk(ex):
            if e[0] == "bin" and e[3] == "=":
                l, r = strip(e[4]), strip(e[5])
                if l[0] == "var" and l[4] in ("g", "s") and r[0] == "var" and r[3] in pos:
                    note(e, (l[3], pos[r[3]]), node)
            elif e[0] == "call" and callee(e) == "signal" and len(e[4]) > 1 and strip(e[4][1])[0] == "var" and strip(e[4][1])[3] in pos:
                note(e, (signame(e), pos[strip(e[4][1])[3]]), node)
            elif e[0] == "call" and callee(e) in UP | DOWN | VDOWN and e[4]:
                v = strip(e[4][0])
                if v[0] == "var" and v[3] in pos:
                    note(e, ("$" + callee(e), pos[v[3]]), node)
            elif e[0] == "call" and callee(e) in P.funcs:
                for g, i in always(P, callee(e)):
                    if g[0] != "?" and i < len(e[4]) and strip(e[4][i])[0] == "var" and strip(e[4][i])[3] in pos:
                        note(e, (g, pos[strip(e[4][i])[3]]), node)
    # only what happens on every way out counts
    out = set()
    for g, nodes in at.items():
        seen, work = {gr.entry.id}, [gr.entry]
        miss = False
        while work:
            x = work.pop()
            if x.id in nodes:
                continue
            if x.kind == "ret" or x is gr.exit:
                miss = True
                break
            for m, l in x.succ:
                if m.id not in seen:
                    seen.add(m.id)
                    work.append(m)
        if not miss:
            out.add(g)
        elif g[0].startswith("$"):
            out.add(("?" + g[0][1:], g[1]))
    busy.discard(n)
    memo[k] = out
    return out


def signame(e):
    return "signal %s" % show(e[4][0])


def setting(e):
    e = strip(e)
    if e[0] == "var" and e[4] in ("g", "s"):
        return e[3]
    if e[0] == "call" and callee(e) == "signal":
        return signame(e)
    return None
