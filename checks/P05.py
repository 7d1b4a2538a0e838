"""P05: #include, __LINE__, __FILE__ and the positions in diagnostics. Lines are chosen by symbolic bytes; windows of free bytes decide how
many lines precede."""
from pplib import *
INC = {"i.h": "a\nI __LINE__ __FILE__\n#define M __LINE__ m\n", "n.h": "__LINE__\n#include \"i.h\"\nN __LINE__ __FILE__", "e.h": "", "c.h": "/*\n*/ C __LINE__ // x\n\n#if 0\n\n#endif\n#undef M\n__LINE__\n\n", "w.h": "W", "b.h": "\n" * 600 + "B __LINE__ F __FILE__\n" + " " * 500 + "b __LINE__ "}
# name -> (text, [(kind, arg, line offset)])
OPT = {"line": ("__LINE__", [("L", 0)]), "file": ("__FILE__", [("F",)]), "lines": ("__LINE__ , __LINE__", [("L", 0), ("t", ","), ("L", 0)]), "blank": ("", []), "text": ("x y", [("t", "xy")]), "mac": ("M", [("M", 0)]), "mac2": ("G(M)", [("t", "<"), ("M", 0), ("t", ">")]), "splice": ("q \\\n __LINE__", [("t", "q"), ("L", 1)]), "splice2": ("\\\n\\\r\n__LINE__ \\\n", [("L", 2)]),
       "cmt": ("/* \n \n */ __LINE__", [("L", 2)]), "cmt2": ("__LINE__ /*\n*/ r", [("L", 0), ("t", "r")]), "lcmt": ("// c \\\n d", []), "lcmt2": ("__LINE__ // \\\\", [("L", 0)]) if 0 else ("__LINE__ // c", [("L", 0)]), "str": ('"a\\\nb" __LINE__', [("t", '"ab"'), ("L", 1)]), "call": ("G(x\n,\ny) z", None), "callml": ("G(\n\nx\n)", [("t", "<x>")]), "calln": ("G\n\n__LINE__", [("t", "G"), ("L", 2)]), "callfile": ("G\n__FILE__", [("t", "G"), ("F",)]), "skip": ("#if 0\n\n'\n/*\n*/\n#endif", []), "skip2": ("#if 1\n__LINE__\n#else\n\n#endif", [("L", 1)]),
       "def": ("#define M \\\n __LINE__ \\\n k", [("D", "k")]), "undef": ("#undef M", [("U",)]), "inc": ('#include "i.h"', [("I", "i.h")]), "incn": ('# include "n.h" // c', [("I", "n.h")]), "ince": ('#include/**/"e.h"', [("I", "e.h")]), "incc": ("#include <c.h>", [("I", "c.h")]), "incm": ("#include NAME", [("I", "w.h")]), "incb": ('#include "b.h"/*\n*/', [("I", "b.h")]), "missing": ('#include "no.h"', [("X", "no.h")]),
       "err": ("#error oops", [("E", 0)]), "err2": ("# \\\nerror", [("E", 1)]), "unterm": (' "abc', [("E", 0)]), "if": ("#if __LINE__ % 2", None), "cr": ("__LINE__\r", [("L", 0)]), "hash": ("#", []), "defn": ("N __LINE__ __FILE__", [("t", "N"), ("L", 0), ("F",)])}
del OPT["call"], OPT["if"]
class Stop(Exception): pass
IREF = {"i.h": [("t", "a"), "\n", ("t", "I"), ("L", 0), ("F",), "\n", ("D", "m"), "\n"], "n.h": [("L", 0), "\n", ("I", "i.h"), "\n", ("t", "N"), ("L", 0), ("F",)], "e.h": [], "c.h": ["\n", ("t", "C"), ("L", 0), "\n", "\n", "\n", "\n", "\n", ("U",), "\n", ("L", 0)], "w.h": [("t", "W")],
        "b.h": ["\n"] * 600 + [("t", "B"), ("L", 0), ("t", "F"), ("F",), "\n", ("t", "b"), ("L", 0)]}
def ref(names, base=1):
    """(tokens, diagnostic) of the chosen lines"""
    out = []; M = [None]; err = [None]
    def ev(e, line, fn):
        k = e[0]
        if k == "L": out.append(str(line + e[1]))
        elif k == "F": out.append('"%s"' % fn)
        elif k == "t": out.append(e[1])
        elif k == "M": out.append("M" if M[0] is None else "%d%s" % (line, M[0]))
        elif k == "D":
            if M[0] is not None and M[0] != e[1]: raise KeyError # a different redefinition: nothing is claimed
            M[0] = e[1]
        elif k == "U": M[0] = None
        elif k == "E": err[0] = "%s:%d" % (fn, line + e[1]); raise Stop
        elif k == "X": err[0] = e[1]; raise Stop
        elif k == "I":
            l = 1
            for x in IREF[e[1]]:
                if x == "\n": l += 1
                else: ev(x, l, e[1])
    line = base
    try:
        for n in names:
            t, es = OPT[n]
            for e in es: ev(e, line, "p.c")
            line += t.count("\n") + 1
    except Stop: pass
    except KeyError: return None, None
    return "".join(out), err[0]
PRE = "#define G(x) <x>\n#define NAME \"w.h\"\n"
def padded(sel, opts):
    ts = [OPT[o][0] for o in opts]; w = max(map(len, ts)); ts = [" " * (w - len(t)) + t for t in ts]; out = []
    for i in range(w):
        e = const(ord(ts[0][i]), 8)
        for o in range(1, len(ts)): e = sel.eq(o).ite(const(ord(ts[o][i]), 8), e)
        out.append(e.val if e.val is not None else e)
    return out + [10]
def case(pre, opts, k, post):
    res = Result(); sels = [B("line%d" % i) for i in range(k)]; pc = PC()
    for s in sels: pc.assume(s.ult(len(opts)))
    src = flat(PRE, *[OPT[n][0] + "\n" for n in pre])
    for s in sels: src += padded(s, opts)
    src += flat(*[OPT[n][0] + "\n" for n in post])
    res.sample({"prefix": list(pre), "choices": list(opts), "symbolic_lines": k, "suffix": list(post)})
    for p in run(src, pc, INC):
        res.count("paths")
        def reference(f):
            ch = []
            for s in sels:
                for o in range(len(opts)):
                    if o == len(opts) - 1 or f.dec(s.eq(o)): ch.append(opts[o]); break
            return list(pre) + ch + list(post)
        for q, names in forks(p.pc, reference):
            judge(res, p, q, ref(names, 3), src, " / ".join(names))
            if len(res.viols) > 5: return res
    return res
def judge(res, p, q, exp, src, what):
    res.count("sequences"); exp, err = exp; why = None
    if exp is None: res.count("outside_claim"); return
    if p.st not in ("EXIT", "ABORT", "ASSERT"): why = "ends with %s %s" % (p.st, p.msg)
    elif err:
        res.count("diagnostics"); o = show(p.out(), q.model())
        if not rejected(p): why = "accepted, there's an error at %s" % err
        elif not re.search(r"(^|[^\w.])" + re.escape(err) + r"($|[^\w.])", o): why = "diagnostic %r instead of one for %s" % (o[-80:], err)
    elif rejected(p): why = "rejected (%s)" % (p.msg or show(p.out()))
    else:
        g = re.sub(r"\s", "", show(p.file("p.o"), q.model()))
        if g != exp: why = "output is %r instead of %r" % (g[-200:], exp[-200:])
    if why: report(res, what, why, src, q.model(), INC)
def window(name, a, k, alpha, b, exp):
    """k free bytes from alpha between a and b; exp: expected output from the number of newlines among them"""
    res = Result(); vs = [B("c%d" % i) for i in range(k)]; pc = PC()
    for v in vs: pc.assume(inset(v, sorted(alpha)))
    src = flat(a, vs, b); res.sample({"before": a[-60:], "free_bytes": k, "after": b[:60]})
    for p in run(src, pc, INC):
        res.count("paths")
        for q, n in forks(p.pc, lambda f: sum(f.dec(v.eq(10)) for v in vs)):
            judge(res, p, q, (exp(n), None), src, "%s with %d newlines" % (name, n))
            if len(res.viols) > 5: return res
    return res
GR = {"lines": ["line", "blank", "splice", "cmt", "cmt2", "lcmt", "calln", "str"], "inc": ["line", "inc", "incn", "incc", "mac", "ince", "defn", "file"], "skip": ["skip", "skip2", "lines", "cr", "splice2", "callml", "text"], "mac": ["def", "undef", "mac", "mac2", "inc", "incc", "line"], "err": ["err", "err2", "unterm", "blank", "cmt", "inc", "callml", "skip"], "miss": ["missing", "incm", "incb", "line", "callfile", "hash", "err"]}
if __name__ == "__main__":
    C = Check("P05", "translation_validation", "scpp's main executed symbolically on sources whose lines (among them #include, __LINE__, __FILE__, comments, splices, multi-line calls, skipped groups, errors) are chosen by symbolic bytes; output and diagnostics of every path are compared with the reference", [
        "4 to 6 symbolic lines in fixed contexts, windows of 8 to 12 bytes that may be newlines", "two levels of nested includes (scpp's limit)", "the line __LINE__ gives inside a macro call spanning lines is unspecified in C and not compared; #line is ignored by scpp and not used"])
    mod(); sx.native("scpp"); T = C.thorough; C.bounds = {"symbolic_lines": 6 if T else 5, "newline_window": 12 if T else 8}
    for g, o in GR.items():
        for n, (a, b) in {"": ([], ["line"]), "inc": (["inc", "blank"], ["line", "file"]), "skip": (["skip"], ["inc", "line"]), "incb": (["incb"], ["line", "mac", "file"])}.items():
            C.job("%s:%s" % (g, n), case, a, o, (5 if T else 4) + (n == "" and g != "inc"), b)
    K = 12 if T else 8; f = lambda n: str(n + 1)
    for nm, a, al, b, ex in [("blank lines", "", b"\n \r\t", " __LINE__", f), ("comment", "/*", b"\n *a", "*/ __LINE__\n", f), ("skipped group", "#if 0\n", b"\nax", "\n#endif\n__LINE__", lambda n: str(n + 4)), ("skipped group with quotes", "#if 0\n", b"\n\"'", "\n#endif\n__LINE__", lambda n: str(n + 4)), ("call", "#define F(x) x\nF(", b"\n 1", ")__LINE__", None), ("after include", "#include \"i.h\"\n", b"\n ", "__LINE__", lambda n: "aI2\"i.h\"" + str(n + 2)),
        ("before include", "", b"\n ", "\n#include \"n.h\"\n__LINE__", lambda n: '1aI2"i.h"N3"n.h"' + str(n + 3)), ("include in group", "#if 1\n#include \"w.h\"\n#endif\n", b"\n ", "__LINE__ __FILE__", lambda n: "W%d\"p.c\"" % (n + 4)), ("error", "", b"\n ", "\n#error\n", None), ("many lines", "\n" * 700, b"\n ", "__LINE__", lambda n: str(n + 701)), ("function-like name", "#define F(x) x\nF", b"\n ", "__LINE__ p", lambda n: "F%dp" % (n + 2))]:
        if ex is None: continue
        C.job("window:" + nm, window, nm, a, K, set(al), b, ex)
    for k in range(470, 516, 1):
        C.job("edge%d" % k, window, "include at buffer offset %d" % k, "w" * 30 + " " * (k - 44) + "\n", 5, set(b"\n "), '\n#include "i.h"\n__LINE__ z\n', lambda n: "w" * 30 + "aI2\"i.h\"%dz" % (n + 4))
    sys.exit(C.run(need=["paths", "sequences", "diagnostics"]))
