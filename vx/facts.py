"""Builds the extractor, regenerates the generated sources from /repo's
current working tree in a scratch directory, extracts every translation unit
and loads the facts.  Nothing of /repo is executed or modified."""
import os, sys, subprocess, hashlib, json, shutil, tempfile, re, glob, atexit
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
RES = "/usr/lib/llvm-18/lib/clang/18"
sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    pass


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tool_path():
    src = os.path.join(HERE, "tool", "vxextract.cpp")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    d = os.path.join(HERE, "build")
    out = os.path.join(d, "vxextract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    rc, o = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if rc:
        raise AnalysisBroken("cannot build the extractor:\n" + o)
    os.rename(tmp, out)
    return out


def make_list(mk, var):
    """value of a make variable, continuation lines joined"""
    txt = open(mk).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), txt, re.M)
    if not m:
        raise AnalysisBroken("no %s in %s" % (var, mk))
    return m.group(1).split()


def scratch_copy():
    d = tempfile.mkdtemp(prefix="vx-")
    atexit.register(shutil.rmtree, d, True)
    s = os.path.join(REPO, "src")
    gen = {"prefs.h", "prefs_ext.h", "abi_version.h", "language.tab.c", "language.tab.h", "lex.yy.c"}
    def cp(sub, pats):
        os.makedirs(os.path.join(d, "src", sub), exist_ok=True)
        for p in pats:
            for f in glob.glob(os.path.join(s, sub, p)):
                if os.path.basename(f) in gen or not os.path.isfile(f):
                    continue
                shutil.copy2(f, os.path.join(d, "src", sub, os.path.basename(f)))
    cp("bin/fl", ["*.c", "*.cc", "*.h", "*.y", "lexer", "*.tcl", "*.awk", "Makefile"])
    cp("bin/fl/scripts", ["Makefile", "*.awk"])
    cp("lib", ["*.c", "*.h", "Makefile"])
    cp("include", ["*.h"])
    inc = os.path.join(s, "external/minisat/include")
    if os.path.isdir(inc):
        shutil.copytree(inc, os.path.join(d, "src/external/minisat/include"), symlinks=False)
    fl = os.path.join(d, "src/bin/fl")
    for cmd in (["tclsh", "make_prefs.tcl"], ["bison", "-y", "-d", "language.y"], ["flex", "lexer"],
                ["make", "-C", "scripts", "template"]):
        rc, o = sh(cmd, cwd=fl)
        if rc:
            raise AnalysisBroken("generator failed: %s\n%s" % (" ".join(cmd), o[-2000:]))
    for a, b in (("y.tab.c", "language.tab.c"), ("y.tab.h", "language.tab.h")):
        if os.path.exists(os.path.join(fl, a)):
            t = open(os.path.join(fl, a)).read().replace("y.tab.h", "language.tab.h").replace("y.tab.c", "language.tab.c")
            open(os.path.join(fl, b), "w").write(t)
    with open(os.path.join(fl, "abi_version.h"), "w") as f:
        f.write('#ifndef FL_ABI_VERSION\n#define FL_ABI_VERSION "0"\n#endif\n')
    if not os.path.exists(os.path.join(fl, "prefs_ext.h")):
        raise AnalysisBroken("prefs_ext.h was not generated")
    return d


FLAGS = ["-std=gnu99", "-fsyntax-only", "-DDEBUG", "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS",
         '-DVERSION_DATE="x"', '-DDEFAULT_PLUGIN_DIR="/plugins"', "-DFL_BINARY=1", '-DROOT_DIR="/root_dir"',
         "-I.", "-I../../include", "-I../../external/minisat/include", "-I/usr/include/tcl8.6", "-resource-dir", RES,
         "-ferror-limit=0", "-Wno-everything"]


class Facts:
    pass


def load(mode="graph", units=None):
    """mode 'graph': graph.h macros opaque; 'raw': everything expanded."""
    tool = tool_path()
    d = scratch_copy()
    fl = os.path.join(d, "src/bin/fl")
    lobj = [o[:-2] + ".c" for o in make_list(os.path.join(fl, "Makefile"), "LOBJ")]
    lib = [os.path.basename(p) for p in glob.glob(os.path.join(d, "src/lib/*.c"))]
    lmk = os.path.join(d, "src/lib/Makefile")
    if os.path.exists(lmk):
        t = open(lmk).read()
        lib = [f for f in lib if f[:-2] + ".o" in t]
    jobs = []
    for f in lobj:
        if units and f not in units:
            continue
        jobs.append((f, fl, f))
    for f in lib:
        if units and f not in units:
            continue
        jobs.append((f, fl, "../../lib/" + f))
    outd = os.path.join(d, "out")
    os.makedirs(outd, exist_ok=True)

    def run(j):
        name, cwd, src = j
        fl_ = list(FLAGS)
        if mode == "graph" and not src.startswith("../"):
            fl_ += ["-include", os.path.join(HERE, "tool", "shim.h")]
        out = os.path.join(outd, name + ".json")
        rc, o = sh([tool, out, src, "--"] + fl_, cwd=cwd)
        return name, rc, o, out
    units_ = {}
    with ThreadPoolExecutor(8) as ex:
        for name, rc, o, out in ex.map(run, jobs):
            if rc or not os.path.exists(out):
                raise AnalysisBroken("cannot analyse %s:\n%s" % (name, o[-3000:]))
            with open(out) as f:
                u = json.load(f)
            if u["errors"]:
                raise AnalysisBroken("errors in %s:\n%s" % (name, o[-3000:]))
            os.unlink(out)
            units_[name] = u
    if not units_:
        raise AnalysisBroken("no translation unit was analysed")
    return Program(units_, d)


class Func:
    __slots__ = ("name", "short", "file", "line", "end", "static", "ret", "params", "body", "unit", "types", "ctypes",
                 "variadic", "_cfg", "_calls")

    def __repr__(self):
        return "<%s %s:%d>" % (self.name, self.file, self.line)


class Program:
    def __init__(self, units, scratch):
        self.units = units
        self.scratch = scratch
        self.funcs = {}
        self.globals = {}
        self.records = {}
        self.enums = {}
        self.noret = {"exit", "_exit", "abort", "longjmp", "_longjmp", "siglongjmp", "__longjmp_chk", "__assert_fail"}
        for un, u in units.items():
            for f in u["funcs"]:
                F = Func()
                F.name, F.short, F.file, F.line, F.end = f["name"], f["short"], f["file"], f["line"], f["end"]
                F.static, F.ret, F.params, F.body, F.unit = f["static"], f["ret"], f["params"], f["body"], un
                F.types, F.ctypes, F.variadic = u["types"], u["ctypes"], f["var"]
                F._cfg = None
                F._calls = None
                # main definitions win over header inlines
                self.funcs.setdefault(F.name, F)
                if f["noret"]:
                    self.noret.add(F.name)
            for g in u["globals"]:
                n, t, ln, fi, isdef, init = g
                e = self.globals.get(n)
                if e is None or (isdef and not e["def"]) or (init is not None and e["init"] is None):
                    self.globals[n] = {"name": n, "type": u["types"][t], "ctype": u["ctypes"][t], "line": ln, "file": fi,
                                       "def": isdef, "init": init, "unit": un}
            for r in u["records"]:
                n, fi, ln, un_, fields = r
                self.records.setdefault(n, {"file": fi, "line": ln, "union": un_,
                                            "fields": [(a, u["types"][t], u["ctypes"][t], b) for a, t, b in fields]})
            for e in u["enums"]:
                if e[0]:
                    self.enums.setdefault(e[0], dict(map(tuple, e[1])))
                else:
                    self.enums.setdefault("anon:" + e[1][0][0], dict(map(tuple, e[1])))

    def resolve(self, fname, unit=None):
        return self.funcs.get(fname)

    def find(self, short, file=None):
        r = [f for f in self.funcs.values() if f.short == short and (file is None or f.file == file)]
        return r[0] if r else None


# ---- expression helpers -------------------------------------------------
def strip(e):
    while e is not None and e[0] == "cast":
        e = e[3]
    return e


def callee(e):
    """name of the called function, or None"""
    if e is None or e[0] != "call":
        return None
    c = strip(e[3])
    if c[0] == "un" and c[3] == "*":
        c = strip(c[4])
    if c[0] == "fn":
        return c[3]
    return None


def subexprs(e):
    """direct sub-expressions of an expression"""
    if e is None:
        return []
    k = e[0]
    if k in ("str", "flt", "var", "fn", "szof"):
        return []
    if k == "int":
        return []
    if k == "call":
        return [e[3]] + e[4]
    if k == "mem":
        return [e[3]]
    if k == "idx":
        return [e[3], e[4]]
    if k == "un":
        return [e[4]]
    if k == "bin":
        return [e[4], e[5]]
    if k == "cond":
        return [e[3], e[4], e[5]]
    if k == "cast":
        return [e[3]]
    if k == "init":
        return e[3]
    if k == "vaarg":
        return [e[3]]
    if k == "other":
        return e[4]
    if k == "stmtexpr":
        return list(stmt_exprs(e[3]))
    return []


def walk(e):
    if e is None:
        return
    yield e
    for s in subexprs(e):
        yield from walk(s)


def stmt_children(s):
    k = s[0]
    if k == "block":
        return s[2]
    if k == "if":
        return [x for x in (s[3], s[4]) if x]
    if k == "while":
        return [s[3]] if s[3] else []
    if k == "do":
        return [s[2]]
    if k == "for":
        return [x for x in (s[2], s[5]) if x]
    if k == "switch":
        return [s[3]]
    if k == "case":
        return [s[4]] if s[4] else []
    if k == "default":
        return [s[2]] if s[2] else []
    if k == "label":
        return [s[3]] if s[3] else []
    return []


def stmt_own_exprs(s):
    k = s[0]
    if k == "expr":
        return [s[2]]
    if k == "if" or k == "while" or k == "switch":
        return [s[2]]
    if k == "do":
        return [s[3]]
    if k == "for":
        return [x for x in (s[3], s[4]) if x]
    if k == "ret":
        return [s[2]] if s[2] else []
    if k == "decl":
        return [d[2] for d in s[2] if d[2]]
    if k == "case":
        return []
    return []


def stmts(s):
    if s is None:
        return
    yield s
    for c in stmt_children(s):
        yield from stmts(c)


def stmt_exprs(s):
    for x in stmts(s):
        for e in stmt_own_exprs(x):
            yield e


def all_exprs(f):
    for e in stmt_exprs(f.body):
        yield from walk(e)


def calls_of(f):
    if f._calls is None:
        f._calls = [e for e in all_exprs(f) if e[0] == "call"]
    return f._calls


def show(e, n=0):
    """C-like rendering, for reports"""
    if e is None:
        return ""
    k = e[0]
    if n > 8:
        return "..."
    r = lambda x: show(x, n + 1)
    if k == "int":
        return e[4] if len(e) > 4 and e[4] and not e[4].startswith("__") else str(e[3])
    if k == "str":
        return '"%s"' % e[3][:40]
    if k == "flt":
        return e[3]
    if k in ("var", "fn"):
        return re.sub(r"[#@].*", "", e[3])
    if k == "call":
        return "%s(%s)" % (r(e[3]), ", ".join(r(a) for a in e[4]))
    if k == "mem":
        return "%s%s%s" % (r(e[3]), "->" if e[5] else ".", e[4])
    if k == "idx":
        return "%s[%s]" % (r(e[3]), r(e[4]))
    if k == "un":
        return (r(e[4]) + e[3][1:]) if e[3][0] == "p" else e[3] + r(e[4])
    if k == "bin":
        return "%s %s %s" % (r(e[4]), e[3], r(e[5]))
    if k == "cond":
        return "%s ? %s : %s" % (r(e[3]), r(e[4]), r(e[5]))
    if k == "cast":
        return r(e[3])
    return k
