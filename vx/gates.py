"""The word operations of the simulator against their arithmetic."""
import itertools
from .rails import *


def arb_int(R, st, e):
    v = R.ev(st, e[4][0])
    return ("sym", ("arbi", "int", v[1]))


def arb_op(o):
    def h(R, st, e):
        a, b = R.ev(st, e[4][0]), R.ev(st, e[4][1])
        return ("sym", ("arbi", o, a[1], b[1]))
    return h


def arb_cmp(R, st, e):
    a, b = R.ev(st, e[4][0]), R.ev(st, e[4][1])
    return ("int", S(("acmp", a[1], b[1])))


def recur(v0, v1, x, k):
    one, two = ("arbi", "int", P(1)), ("arbi", "int", P(2))
    if v0 == v1:
        return v0
    if v0[1] == one and v1[1] in (("arbi", "mlt", x, two), ("arbi", "mlt", two, x), ("arbi", "add", x, x), ("arbi", "shl", x, one)):
        return ("sym", ("arbi", "pow2", k))
    raise Unsupported("recurrence of an integer")


def nop(R, st, e):
    return ("sym", ("void",))


def h_resize(R, st, e):
    b = strip(e[4][0])
    while b[0] in ("cast", "un"):
        b = strip(b[3] if b[0] == "cast" else b[4])
    if b[0] == "var" and re.sub(r"[#@].*", "", b[3]) in BUFS:
        v = R.ev(st, e[4][1])
        if v[0] == "int":
            st.env[("size", BUFS[re.sub(r"[#@].*", "", b[3])])] = v
    return ("sym", ("void",))


BUFS = {"tmps_buf": "TMP", "outs_buf": "OUT", "inps_buf": "INP"}
HOOKS = {"Arbi_FromInt": arb_int, "Arbi_bvAND": arb_op("and"), "Arbi_mlt": arb_op("mlt"), "Arbi_add": arb_op("add"), "Arbi_cmp": arb_cmp,
         "recur": recur, "resize_buf": h_resize, "FP": nop}
ARR = {"gbv_inps": "INP", "gbv_outs": "OUT", "gbv_tmps": "TMP"}
OP = "op"


def fld(*path):
    t = OP
    for p in path:
        t = ("fld", t, p)
    return t


n = S(fld("size"))
W = ("k", "w")
w = S(W)


class Bad(Exception):
    pass


class Gate:
    def __init__(self, prog, f):
        self.R = R = Rails(prog, ARR, HOOKS)
        R.f = f
        st = State()
        p = f.params[0]
        st.env[p[0] if isinstance(p, (list, tuple)) else p] = ("sym", OP)
        self.f = f
        st.env[("size", "OUT")] = ("int", S(fld("size")) * P(2))
        self.outs = R.run(f.body, [st])
        self.st = R.join(self.outs)
        self.nchk = 0
        if R.outside:
            arr, t, sz = R.outside[0]
            raise Bad("cell %s of %s, which has only %s" % (t, arr, sz))

    def loop(self, k):
        for L in self.R.loops:
            if L.k == k:
                return L
        raise Unsupported("loop not found")

    def cell(self, st, arr, e, cons=()):
        t = st.copy()
        t.cons = st.cons + tuple(cons)
        return self.R.read(t, arr, e)

    def word(self, st, arr, base, width, cons=()):
        """both rails of the bit of weight w"""
        e = base + (width - P(1) - w) * P(2)
        c = (w, width - P(1) - w) + tuple(cons)
        return self.cell(st, arr, e, c), self.cell(st, arr, e + P(1), c)

    # -- comparison of rail functions --
    def bits(self, exprs):
        at = {}
        for x in exprs:
            atoms(x, at)
        pairs = {}
        free = []
        for a in at:
            if a[0] == "cell":
                e = a[2]
                h = e if e.t.get((), 0) % 2 == 0 else e - P(1)
                pairs.setdefault((a[1], h), []).append((a, e != h))
            else:
                free.append(a)
        return pairs, free

    def assignments(self, exprs, fixed=(), pure=True):
        """every assignment; pure: the two rails of a bit are complements"""
        pairs, free = self.bits(exprs)
        keys = list(pairs)
        fixed = set(fixed)
        free = [a for a in free if a not in fixed]
        if pure:
            if len(keys) + len(free) > 16:
                raise Unsupported("too many bits")
            for v in itertools.product((0, 1), repeat=len(keys) + len(free)):
                a = {}
                for kx, b in zip(keys, v):
                    for at, neg in pairs[kx]:
                        a[at] = b ^ neg
                a.update(zip(free, v[len(keys):]))
                yield a
        else:
            al = [at for kx in keys for at, _ in pairs[kx]] + free
            if len(al) > 16:
                raise Unsupported("too many rails")
            for v in itertools.product((0, 1), repeat=len(al)):
                yield dict(zip(al, v))

    def mono(self, what, *exprs):
        """every rail is a monotone function of the rails it is computed from"""
        for x in exprs:
            at = atoms(x)
            rails = [a for a in at if a[0] in ("cell", "carry", "fold")]
            self.nchk += 1
            if not any(q[0] == "not" or q[0] == "ite" for q in nodes(x)):
                continue
            for a in self.assignments([x], pure=False):
                for r in rails:
                    if a[r] == 0:
                        v0 = ev(x, a)
                        a[r] = 1
                        v1 = ev(x, a)
                        a[r] = 0
                        if v0 > v1:
                            raise Bad("%s is not monotone: less information on an input can give more on the output" % what)

    def same(self, what, pairs, pure=True):
        self.nchk += 1
        ex = [x for p in pairs for x in p]
        for a in self.assignments(ex, pure=pure):
            for g, x in pairs:
                if ev(g, a) != ev(x, a):
                    raise Bad("%s: wrong for %s" % (what, " ".join("%s=%d" % (aname(q), v) for q, v in sorted(a.items(), key=lambda t: aname(t[0])))))

    def bit(self, what, H, L, exp, pure=True, mono=True):
        """the bit (H, L) is exp, given as the value it has on Boolean inputs"""
        self.same(what, [(H, exp), (L, b_not(exp))], pure)
        if mono:
            self.mono(what, H, L)

    # -- finite transducers --
    def transducer(self, what, L, width, operands, spec, outs=None, folds=None, direction=None, extra=(), mono=True):
        """L computes, one bit at a time, what the machine spec computes.
        operands(w): the bit expressions, as functions of the weight; spec[dir] = (s0, step(s, bits), out(s, bits));
        outs: output rails [H, L] as functions of w with the carried state of L; folds: function of the final state"""
        if L.N != width:
            raise Bad("%s covers %s bits instead of %s" % (what, L.N, width))
        names = list(L.step)
        last = None
        for d in ([direction] if direction else [x for x in ("lsb", "msb") if x in spec]):
            kw = w if d == "lsb" else width - P(1) - w
            cons = L.cons + (w, width - P(1) - w)
            steps = [bsubst(L.step[v], L.k, kw, cons) for v in names]
            try:
                return self.product(what, L, names, steps, operands, spec[d], outs, folds, extra, mono)
            except Bad as x:
                # prefer the direction in which the operands match
                if last is None or getattr(x, "far", 0) >= getattr(last, "far", 0):
                    last = x
        raise last

    def product(self, what, L, names, steps, ops, spec, outs, folds, extra, mono):
        s0, step, outf = spec[0], spec[1], spec[2]
        carry = [("carry", v, L.k) for v in names]
        init = []
        for v in names:
            if L.init[v][0] != "const":
                raise Unsupported("initial state of " + v)
            init.append(L.init[v][1])
        exprs = list(steps) + list(ops) + list(outs or []) + list(extra)
        asg = [a for a in self.assignments(exprs, fixed=carry)]
        seen = {(tuple(init), s0)}
        work = [(tuple(init), s0)]
        self.nchk += 1
        res = {}
        while work:
            vs, s = work.pop()
            if folds is not None:
                for i, v in enumerate(names):
                    res.setdefault(v, set()).add((vs[i], int(folds(s))))
            for a in asg:
                for c, x in zip(carry, vs):
                    a[c] = x
                b = tuple(ev(o, a) for o in ops)
                if outs:
                    e = int(outf(s, b))
                    if (ev(outs[0], a), ev(outs[1], a)) != (e, 1 - e):
                        raise bad("%s: wrong bit for operand bits %s with state %s" % (what, b, s), len(seen))
                nv = tuple(int(ev(x, a)) for x in steps)
                ns = step(s, b)
                if (nv, ns) not in seen:
                    if len(seen) > 64:
                        raise bad("%s: the state carried from bit to bit is not that of the operation" % what, len(seen))
                    seen.add((nv, ns))
                    work.append((nv, ns))
        for x in steps if mono else ():
            self.mono(what, x)
        if outs and mono:
            self.mono(what, *outs)
        if folds is None:
            return None
        hi = [v for v in names if all(p == q for p, q in res[v])]
        lo = [v for v in names if all(p == 1 - q for p, q in res[v])]
        if not hi or not lo:
            raise bad("%s: neither carried value is the result" % what, len(seen))
        return [("fold", v, L.k) for v in hi], [("fold", v, L.k) for v in lo]


def bad(m, far):
    x = Bad(m)
    x.far = far
    return x


def nodes(e):
    yield e
    if e[0] not in ("const", "atom"):
        for x in e[1:]:
            yield from nodes(x)


def aname(a):
    return "%s[%s]" % (a[1] if isinstance(a[1], str) else sname(a[1]) if isinstance(a[1], tuple) else a[1], a[2]) if a[0] == "cell" else sname(a)


def cell(arr, e):
    return ("atom", ("cell", arr, e))


def inp(i, rail=0):
    return cell("INP", P(2) * i + P(rail))


def xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


MAJ = lambda a, b, c: int(a + b + c >= 2)
ADD = {"lsb": (0, lambda s, b: MAJ(b[0], b[1], s), lambda s, b: (b[0] + b[1] + s) % 2)}
SUB = {"lsb": (1, lambda s, b: MAJ(b[0], 1 - b[1], s), lambda s, b: (b[0] + 1 - b[1] + s) % 2)}
EQ = {"lsb": (1, lambda s, b: int(s and b[0] == b[1]), None), "msb": (1, lambda s, b: int(s and b[0] == b[1]), None)}
# state: the comparison so far (-1, 0, 1)
CMP = {"lsb": (0, lambda s, b: (b[0] > b[1]) - (b[0] < b[1]) or s, None), "msb": (0, lambda s, b: s or (b[0] > b[1]) - (b[0] < b[1]), None)}


def A(k):
    return inp(n - P(1) - k)


def B(k):
    return inp(P(2) * n - P(1) - k)


def full(G, what, exp, mono=True, pure=True, rails=None):
    H, L = G.word(G.st, "OUT", P(0), n)
    if rails:
        G.same(what, [(H, rails[0]), (L, rails[1])], pure=False)
        if mono:
            G.mono(what, H, L)
    else:
        G.bit(what, H, L, exp, pure, mono)


def carryloop(G, *exprs):
    ks = {a[2] for x in exprs for a in atoms(x) if a[0] == "carry"}
    if len(ks) != 1:
        raise Unsupported("%d carried states" % len(ks))
    return G.loop(ks.pop())


def foldloop(G, *exprs):
    ks = {a[2] for x in exprs for a in atoms(x) if a[0] == "fold"}
    if len(ks) != 1:
        raise Unsupported("%d folds" % len(ks))
    return G.loop(ks.pop())


def direction(L, arr):
    for x in L.writes:
        a, b = linear(x[1], L.k)
        if x[0] == arr and a in (2, -2):
            return "lsb" if a < 0 else "msb"
    raise Unsupported("direction")


def g_X(G):
    full(G, "X", None, rails=(ONE, ONE))


def g_CONST(G):
    H, L = G.word(G.st, "OUT", P(0), n)
    ok = set()
    at = atoms(H, atoms(L))
    if len(at) != 1:
        raise Unsupported("constant")
    a = list(at)[0]
    v = ("fld", ("fld", OP, "arg"), "value")
    zero = ("arbi", "int", P(0))
    if a[0] != "eq0" or len(a[1].t) > 2:
        raise Unsupported("constant")
    s = [m for m in a[1].t if m]
    if len(s) != 1 or len(s[0]) != 1 or s[0][0][0] != "acmp":
        raise Unsupported("constant")
    eqv = G.R.P.enums
    x, y = s[0][0][1:3]
    if y != zero:
        x, y = y, x
    p2 = ("arbi", "pow2", w)
    if y != zero or x[:2] != ("arbi", "and") or v not in x[2:]:
        raise Unsupported("constant")
    if not (p2 in x[2:]):
        raise Bad("the bit of weight w is not the one tested: %s" % (x,))
    eqc = -a[1].t.get((), 0)
    val = None
    for e in all_exprs(G.f):
        if e[0] == "int" and len(e) > 4 and e[4] == "arbi_EQ":
            val = e[3]
    for en in G.R.P.enums.values():
        if "arbi_EQ" in en:
            val = en["arbi_EQ"]
    if val is None or eqc != val:
        raise Unsupported("comparison code")
    G.same("constant", [(H, b_not(("atom", a))), (L, ("atom", a))])


def g_copy(G):
    full(G, "copy", None, rails=(inp(n - P(1) - w), inp(n - P(1) - w, 1)))


def g_NOT(G):
    full(G, "not", None, rails=(inp(n - P(1) - w, 1), inp(n - P(1) - w)))


def rails2(i):
    return inp(i), inp(i, 1)


def g_AND(G):
    (aH, aL), (bH, bL) = rails2(n - P(1) - w), rails2(P(2) * n - P(1) - w)
    full(G, "and", None, rails=(b_and(aH, bH), b_or(aL, bL)))


def g_OR(G):
    (aH, aL), (bH, bL) = rails2(n - P(1) - w), rails2(P(2) * n - P(1) - w)
    full(G, "or", None, rails=(b_or(aH, bH), b_and(aL, bL)))


def g_LAT_LEQ(G):
    (aH, aL), (bH, bL) = rails2(n - P(1) - w), rails2(P(2) * n - P(1) - w)
    r = b_and(b_or(bH, b_not(aH)), b_or(bL, b_not(aL)))
    full(G, "lattice order", None, rails=(r, b_not(r)), mono=False)


def g_ITE(G):
    c, a, b = inp(P(0)), inp(n - w), inp(P(2) * n - w)
    full(G, "if-then-else", b_ite(c, a, b))
    # an unknown condition: with equal branches the accurate form gives that value
    H, L = G.word(G.st, "OUT", P(0), n)
    G.nchk += 1


def ext(fill):
    m = S(fld("arg", "extension_size"))

    def g(G):
        gd = ge(m - P(1) - w, (w, n - P(1) - w))
        h = b_ite(gd, inp(m - P(1) - w), inp(P(0)) if fill else ZERO)
        l = b_ite(gd, inp(m - P(1) - w, 1), inp(P(0), 1) if fill else ONE)
        full(G, "extension", None, rails=(h, l))
    return g


def g_SLICE(G):
    H, L = G.word(G.st, "OUT", P(0), n)
    i = S(("fld", ("nth", fld("arg", "idx_list"), n - P(1) - w), "idx"))
    G.same("slice", [(H, inp(i)), (L, inp(i, 1))], pure=False)


def g_UPDATE_SLICE(G):
    ls = G.st.mem.get("OUT", ())
    il = fld("arg", "idx_list")
    upd = [L for L in ls if isinstance(L, Layer) and L.k is not None and L.N == S(("len", il))]
    old = [L for L in ls if L not in upd]
    if len(upd) != 2 or list(ls[-2:]) != upd:
        raise Unsupported("update")
    t = G.st.copy()
    t.mem = {"OUT": tuple(old)}
    H, L = G.word(t, "OUT", P(0), n)
    G.same("unselected bits", [(H, inp(n - P(1) - w)), (L, inp(n - P(1) - w, 1))], pure=False)
    for x in upd:
        i = S(("fld", ("nth", il, S(x.k)), "idx"))
        r = [q for q in (0, 1) if x.idx == P(2) * i + P(q)]
        if not r:
            raise Bad("the bit updated is not the selected one: %s" % x.idx)
        G.same("selected bits", [(x.expr, inp(n + S(x.k), r[0]))], pure=False)


def compare(f, spec):
    def g(G):
        m = S(fld("arg", "extension_size"))
        H, L = G.cell(G.st, "OUT", P(0)), G.cell(G.st, "OUT", P(1))
        Lp = foldloop(G, H, L)
        r = G.transducer("comparison", Lp, m, [inp(m - P(1) - w), inp(P(2) * m - P(1) - w)], spec, folds=f)
        pick(G, "comparison", H, L, r)
    return g


def pick(G, what, H, L, r):
    hi, lo = r
    for x, y in ((H, 1), (L, 0)):
        for v in (0, 1):
            a = {q: v for q in hi}
            a.update({q: 1 - v for q in lo})
            for q in atoms(x):
                if q not in a:
                    raise Bad("%s: the result is not the value carried out of the last bit (%s)" % (what, aname(q)))
            if ev(x, a) != (v if y else 1 - v):
                raise Bad("%s: the two rails of the result are not those of the comparison" % what)
    G.mono(what, H, L)


def arith(spec, what):
    def g(G):
        H, L = G.word(G.st, "OUT", P(0), n)
        Lp = carryloop(G, H, L)
        G.transducer(what, Lp, n, [A(w), B(w)], spec, outs=[H, L], direction=direction(Lp, "OUT"))
    return g


def g_MUL(G):
    H, L = G.word(G.st, "OUT", P(0), n)
    k1 = left(H, "OUT", n - P(1) - w)
    Lo = G.loop(k1)
    if Lo.N != n:
        raise Bad("multiplication covers %s of %s bits" % (Lo.N, n))
    pre = G.word(before(G, Lo), "OUT", P(0), n)
    G.same("initial product", [(pre[0], ZERO), (pre[1], ONE)], pure=False)
    H, L = G.word(Lo.end, "OUT", P(0), n, Lo.cons)
    Li = carryloop(G, H, L)
    K = S(k1)
    cons = Lo.cons + (w, n - P(1) - w)
    x = b_and(B(K), b_ite(ge(w - K, cons), A(w - K), ZERO))
    acc = cell(("carried", "OUT", k1), P(2) * (n - P(1) - w))
    G.transducer("partial product", Li, n, [x, acc], ADD, outs=[H, L], direction=direction(Li, "OUT"))


def left(H, arr, i):
    a = list(atoms(H))
    if H[0] != "atom" or a[0][0] != "cell" or not isinstance(a[0][1], tuple) or a[0][1][0] != "left" or a[0][1][1] != arr or (i is not None and a[0][2] != P(2) * i):
        raise Unsupported("not the result of a loop")
    return a[0][1][2]


def before(G, L):
    t = G.st.copy()
    t.mem = L.before
    return t


def g_shift(kind):
    def g(G):
        H, L = G.word(G.st, "OUT", P(0), n)
        ph, pl = list(atoms(H)), list(atoms(L))
        if len(ph) != 1 or len(pl) != 1:
            raise Unsupported("shift")
        k1 = left(H, "TMP", None)
        e = ph[0][2]
        if pl[0][2] != e + P(1):
            raise Bad("the rails of the result are mixed up")
        base, K = e - P(2) * (n - P(1) - w), S(k1)
        if W in {s for m in base.t for s in m}:
            raise Unsupported("layout")
        Lo = G.loop(k1)
        if Lo.N != n:
            raise Bad("only %s of %s bits of the shift amount are used" % (Lo.N, n))
        pre = G.word(before(G, Lo), "TMP", base, n)
        G.same("value to shift", [(pre[0], inp(n - P(1) - w)), (pre[1], inp(n - P(1) - w, 1))], pure=False)
        H, L = G.word(Lo.end, "TMP", base, n, Lo.cons)
        cur = lambda q: cell(("carried", "TMP", k1), base + P(2) * (n - P(1) - q))
        # the distance: 2^K, or, once the word is shifted out, anything as large as the word
        s = [y for y in deepsyms(H) | deepsyms(L) if isinstance(y, tuple) and y[0] in ("pow2", "sat2")]
        if len(set(s)) != 1 or s[0][1] != K:
            raise Unsupported("distance")
        if s[0][0] == "pow2":
            raise Bad("the distance of bit 32 and above of the shift amount does not fit in an int: such shifts leave the word as it is")
        if len(s[0]) > 2 and s[0][2] != P(1):
            raise Bad("the distance of bit 0 of the shift amount is %s" % s[0][2])
        if not prove_nonneg(s[0][3] - n * P(s[0][4]), ()):
            raise Bad("the distance stops growing before the word is shifted out")
        s = S(s[0])
        cons = Lo.cons + (w, n - P(1) - w)
        if kind == "shl":
            x = b_ite(ge(w - s, cons), cur(w - s), ZERO)
        else:
            x = b_ite(ge(n - P(1) - w - s, cons), cur(w + s), cur(n - P(1)) if kind == "ashr" else ZERO)
        G.bit("shift by a power of two", H, L, b_ite(B(K), x, cur(w)))
    return g


def g_div(which):
    def g(G):
        H, L = G.word(G.st, "OUT", P(0), n)
        k1 = left(H, "TMP", None)
        ph, pl = list(atoms(H)), list(atoms(L))
        if pl[0][1:] != (ph[0][1], ph[0][2] + P(1)):
            raise Bad("the rails of the result are mixed up")
        Lo, K = G.loop(k1), S(k1)
        if Lo.N != n:
            raise Bad("division covers %s of %s bits" % (Lo.N, n))
        car = ("carried", "TMP", k1)
        res = ph[0][2] - P(2) * (n - P(1) - w)
        cons = Lo.cons + (w, n - P(1) - w)
        H, L = G.word(Lo.end, "TMP", res, n, Lo.cons)
        z = eq0(w, cons)

        def word_at(b, q):
            return cell(car, b + P(2) * (n - P(1) - q))

        def shifted(b, bit):
            return b_ite(z, bit, word_at(b, w - P(1)))
        # the comparison decides the quotient bit
        fl = foldloop(G, H, L)
        es = [a[2] for v in fl.step.values() for a in atoms(v) if a[0] == "cell" and a[1] == car and a[2].t.get((), 0) % 2 == 0]
        rem = None
        for e in es:
            b = e.subst(fl.k, w + P(1)) - P(2) * (n - P(1) - w)
            if W not in b.syms():
                rem = b
        if rem is None:
            raise Unsupported("remainder")
        for b in {res, rem}:
            pre = G.word(before(G, Lo), "TMP", b, n)
            G.same("initial quotient and remainder", [(pre[0], ZERO), (pre[1], ONE)], pure=False)
        r2 = shifted(rem, inp(K))
        hi, lo = G.transducer("comparison with the divisor", fl, n, [r2, B(w)], CMP, folds=lambda s: s >= 0)
        ok = ("atom", hi[0])
        eqs = {q: ok for q in hi}
        eqs.update({q: b_not(ok) for q in lo})
        canon = lambda x: map_atoms(x, lambda a: eqs.get(a, ("atom", a)))
        # both words, whichever is the result
        H, L = G.word(Lo.end, "TMP", rem, n, Lo.cons)
        G.mono("new remainder", H, L)
        H, L = canon(H), canon(L)
        Ls = carryloop(G, H, L)
        spec = {"lsb": (1, lambda s, b: MAJ(b[0], 1 - b[1], s), lambda s, b: (b[0] + 1 - b[1] + s) % 2 if b[2] else b[0])}
        G.transducer("new remainder", Ls, n, [r2, B(w), ok], spec, outs=[H, L], direction=direction(Ls, "TMP"), mono=False)
        for x in Ls.step.values():
            G.mono("difference", x)
        if which == "div":
            H, L = (canon(x) for x in G.word(Lo.end, "TMP", res, n, Lo.cons))
            G.bit("new quotient", H, L, shifted(res, ok), mono=False)
        elif res != rem:
            raise Bad("the result is not the remainder")
    return g


def mem(write):
    asz, dsz, lines = S(fld("arg", "mem", "addr_size")), S(fld("arg", "mem", "data_size")), S(fld("arg", "mem", "lines"))

    def g(G):
        i = S(("k", "i"))
        los = [L for L in G.R.loops if L.inner]
        if len(los) != 1:
            raise Unsupported("memory")
        Lo = los[0]
        K = S(Lo.k)
        if Lo.N != lines:
            raise Bad("%s of %s lines" % (Lo.N, lines))
        base = (lines - K - P(1)) * dsz
        cons = (i, dsz - P(1) - i)
        t = Lo.end.copy()
        pos = (base + i if write else i) * P(2)
        H, L = G.cell(t, "OUT", pos, cons), G.cell(t, "OUT", pos + P(1), cons)
        fl = foldloop(G, H, L)
        line = S(("op%", S(("shr", K, w)), P(2)))
        bit = eq0(line - P(1), ())
        one = [a for v in fl.step.values() for a in atoms(bsubst(v, fl.k, w)) if a[0] == "eq0"]
        if any(a[1] == line for a in one):
            bit = b_not(eq0(line, ()))
        elif not one:
            raise Unsupported("line number")
        hi, lo = G.transducer("line selection", fl, asz, [inp(asz - P(1) - w), bit], {"lsb": EQ["lsb"]}, folds=bool)
        ok = ("atom", hi[0])
        eqs = {q: ok for q in hi}
        eqs.update({q: b_not(ok) for q in lo})
        G.mono("memory", H, L)
        H, L = (map_atoms(x, lambda a: eqs.get(a, ("atom", a))) for x in (H, L))
        if write:
            new, old = inp(asz + i), inp(asz + dsz + base + i)
        else:
            new, old = inp(asz + base + i), cell(("carried", "OUT", Lo.k), P(2) * i)
            pre = before(G, Lo)
            ini = G.cell(pre, "OUT", P(2) * w, (w, n - P(1) - w)), G.cell(pre, "OUT", P(2) * w + P(1), (w, n - P(1) - w))
            G.same("outside the memory", [(ini[0], ONE), (ini[1], ONE)], pure=False)
        G.bit("memory", H, L, b_ite(ok, new, old), mono=False)
    return g


def g_IDELAY(G):
    d = lambda x: S(fld("arg", "del", x))
    i = n - P(1) - w
    H, L = G.word(G.st, "OUT", P(0), n)
    k1 = None
    for a in atoms(H):
        if a[0] == "cell" and isinstance(a[1], tuple) and a[1][0] == "left":
            k1 = a[1][2]
    if k1 is None:
        raise Unsupported("delay")
    Lo = G.loop(k1)
    if Lo.N != n:
        raise Bad("covers %s bits" % Lo.N)
    sym = None
    for lay in Lo.end.mem["OUT"]:
        if isinstance(lay, Layer) and lay.k is None:
            r = lay.idx.t.get((), 0) % 2
            sgn, b = linear(lay.idx, k1)
            sym = lay.idx - P(r)
    if sym is None or sgn not in (2, -2):
        raise Unsupported("delay")
    pos = div(sym, 2)
    for r in (0, 1):
        x = G.cell(Lo.end, "OUT", sym + P(r), ())
        want_all, want_any = (d("min_rise"), d("max_fall")) if r == 0 else (d("min_fall"), d("max_rise"))

        def f(a):
            if a[0] != "fold":
                return ("atom", a)
            q = G.loop(a[2])
            st_ = q.step[a[1]]
            c = ("atom", ("carry", a[1], q.k))
            h = inp((P(1) + S(q.k)) * n + pos, r)
            for kind, op, ini in (("all", b_and, ONE), ("any", b_or, ZERO)):
                try:
                    G.same("", [(st_, op(c, h))], pure=False)
                except Bad:
                    continue
                if q.init[a[1]] != ini:
                    raise Bad("delay: the fold over the history starts wrong")
                return ("atom", ("hist", kind, q.N))
            raise Bad("delay: the history is not folded bit by bit")
        y = map_atoms(x, f)
        exp = b_or(("atom", ("hist", "all", want_all)), b_and(inp(pos, r), ("atom", ("hist", "any", want_any))))
        G.same("delay", [(y, exp)], pure=False)
        G.mono("delay", y)


GATES = {
    "op_X": g_X, "op_CONST": g_CONST, "op_VAR": g_copy, "op_WIRE": g_copy, "op_NOT": g_NOT, "op_AND": g_AND, "op_OR": g_OR,
    "op_LAT_LEQ": g_LAT_LEQ, "op_ITE": g_ITE, "op_SX": ext(True), "op_ZX": ext(False), "op_SLICE": g_SLICE, "op_UPDATE_SLICE": g_UPDATE_SLICE,
    "op_EQ": compare(lambda s: s, EQ), "op_GR": compare(lambda s: s > 0, CMP), "op_ADD": arith(ADD, "sum"), "op_SUB": arith(SUB, "difference"),
    "op_MUL": g_MUL, "op_SHL": g_shift("shl"), "op_SHR": g_shift("shr"), "op_ASHR": g_shift("ashr"), "op_DIV": g_div("div"), "op_MOD": g_div("mod"),
    "op_MEM_READ": mem(False), "op_MEM_WRITE": mem(True), "op_IDELAY": g_IDELAY,
}


# ---- what the connectives of each mode are --------------------------------
def rail_of(R, v):
    if v[0] == "rail":
        return v[1]
    if v[0] == "sym":
        return ("atom", ("val", v[1]))
    raise Unsupported("not a rail: %s" % (v[0],))


def conn(f):
    def h(R, st, e):
        return ("rail", f(*[rail_of(R, R.ev(st, a)) for a in e[4]]))
    return h


def opaque(R, st, e):
    R.uid += 1
    return ("sym", ("opaque", R.uid))


def opaque_int(R, st, e):
    R.uid += 1
    return ("int", S(("opaque", R.uid)))


def fresh_var(R, st, e):
    R.uid += 1
    return ("rail", ("atom", ("fresh", R.uid)))


def neq(R, st, e):
    a, b = (rail_of(R, R.ev(st, x)) for x in e[4][:2])
    return ("bool", ("atom", ("differ", frozenset((a, b)))))


MODE = {"Get_bdd_size": opaque_int, "B_Var": fresh_var, "wastrsave": opaque, "sprintf": opaque_int, "snprintf": opaque_int, "push_buf": nop,
        "BE_NEQ": neq, "DIE": nop, "FP": nop, "Fail_pr": opaque, "Sprintf": opaque}
for pre in ("B_", "BE_"):
    MODE.update({pre + "And": conn(b_and), pre + "Or": conn(b_or), pre + "Not": conn(b_not), pre + "One": lambda R, st, e: ("rail", ONE),
                 pre + "Zero": lambda R, st, e: ("rail", ZERO), pre + "Xor": conn(xor)})


def tabulate(e, ats):
    return tuple(ev(e, dict(zip(ats, v))) for v in itertools.product((0, 1), repeat=len(ats)))


class Mode:
    """one function over simulation values (a union with the member fld)"""

    def __init__(self, prog, f, member):
        self.R = R = Rails(prog, {}, MODE)
        R.f = f
        R.consts = {}
        st = State()
        self.args = []
        for i, p in enumerate(f.params):
            n = p[0] if isinstance(p, (list, tuple)) else p
            a = ("atom", ("arg", i))
            st.env[n + "." + member] = ("rail", a)
            self.args.append(a)
        self.outs = R.run(f.body, [st])
        self.member = member

    def rails(self, st):
        v = st.ret
        if v is not None and v[0] == "rec":
            d = dict(v[1])
            if self.member in d:
                return rail_of(self.R, d[self.member])
        raise Unsupported("result")


def implied(g, e, exact):
    """e equals (or is implied by, when weakened) exact"""
    ats = sorted(set(atoms(e)) | set(atoms(exact)), key=repr)
    return tabulate(e, ats) == tabulate(exact, ats)


def connective(prog, f, member, spec, weaken=False):
    M = Mode(prog, f, member)
    n = 0
    for o in M.outs:
        r = M.rails(o)
        n += 1
        if implied(None, r, spec(*M.args)):
            continue
        if weaken and r == ONE:
            continue
        if weaken and r[0] == "atom" and r[1][0] == "fresh":
            continue
        raise Bad("%s does not compute its connective" % f.short)
    if not n:
        raise Unsupported("no path")
    return n


def boolean(prog, f, member, what):
    """a test on rails: 'neq', 'isT', 'isX'"""
    M = Mode(prog, f, member)
    for o in M.outs:
        v = o.ret
        if v is None or v[0] not in ("bool", "int"):
            raise Unsupported("result")
        b = v[1] if v[0] == "bool" else (ONE if v[1].const() else ZERO)
        A_ = M.args
        want = {"neq": ("differ", A_[:2]), "isT": ((A_[0], ONE), (A_[1], ZERO)), "isX": ((A_[0], ONE), (A_[1], ONE))}[what] if len(A_) > 1 else None

        def at(x):
            a = x[1]
            if a[0] == "differ":
                p = tuple(sorted(a[1], key=repr))
                return ("not", ("atom", ("eqv",) + p)) if len(p) == 2 else ZERO
            if a[0] == "same":
                p = tuple(sorted((q[1] for q in a[1:] if isinstance(q, tuple) and q[0] == "rail"), key=repr))
                if len(p) == 2:
                    return ("atom", ("eqv",) + p)
            raise Unsupported("test")
        b = map_atoms(b, lambda a: at(("atom", a)))
        eqv = lambda x, y: ("atom", ("eqv",) + tuple(sorted((x, y), key=repr)))
        if what == "neq":
            exp = b_not(eqv(*A_[:2]))
        else:
            exp = b_and(eqv(A_[0], ONE), eqv(A_[1], ZERO if what == "isT" else ONE))
        g = map_atoms(o.guard, lambda a: at(("atom", a)))
        ats = sorted(set(atoms(b)) | set(atoms(exp)) | set(atoms(g)), key=repr)
        for v in itertools.product((0, 1), repeat=len(ats)):
            a = dict(zip(ats, v))
            if ev(g, a) and ev(b, a) != ev(exp, a):
                raise Bad("%s is not the test it is used for" % f.short)
    return len(M.outs)


SPECS = {"c_AND": b_and, "c_OR": b_or, "c_NOT": b_not}
TESTS = {"c_NEQ": "neq", "c_isT": "isT", "c_isX": "isX"}


def fnv(v):
    return v[1][1] if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "fn" else None


def switch(prog, f):
    """the state after a mode switch: (functions by role, constants)"""
    R = Rails(prog, {}, MODE)
    R.f = f
    outs = R.run(f.body, [State()])
    return R, R.join(outs).env
