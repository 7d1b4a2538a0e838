"""P06: scpp on arbitrary input: windows of free bytes and of freely chosen tokens, and sources around every internal limit. Every path must end
with an exit status, without a memory error and within the step bound."""
from pplib import *
def judge(res, p, src, what, files, exp=None):
    res.count("paths"); why = None
    if p.st not in ("EXIT", "ABORT", "ASSERT", "DIVZERO"): why = "ends with %s %s" % (p.st, p.msg)
    elif p.st == "DIVZERO": why = "divides by zero"
    elif rejected(p): res.count("rejected")
    elif exp is not None:
        res.count("accepted")
        for q, e in forks(p.pc, exp):
            if e is None: continue
            g = re.sub(r"\s", "", show(p.file("p.o"), q.model()))
            if g != e: report(res, what, "accepted, output is %r.. instead of %r.. (%d and %d characters)" % (g[:60], e[:60], len(g), len(e)), src, q.model(), files); return
    else: res.count("accepted")
    if why: report(res, "%s: %s" % (what, re.sub(r"0x[0-9a-f]+|\d+", "#", why)[:90]), why, src, p.pc.model(), files, asan=True)
FILES = {"i.h": "F\n", "j.h": "#if 1\n", "k.h": "A(", "p.h": '#include "p.h"\n'}
def win(name, a, vals, b, steps=300000):
    """free bytes (each from a set of values) between a and b"""
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals):
        if len(s) < 256: pc.assume(inset(v, s))
    src = flat(a, vs, b); res.count("sources"); res.sample({"before": a[-80:], "free_bytes": len(vals), "after": b[:80]})
    for p in run(src, pc, FILES, steps=steps):
        judge(res, p, src, name, FILES)
        if len(res.viols) > 3: break
    return res
TOK = ["A", "B", "F(", "G(", "F", ")", ",", "x", "##", "#", "1", "\n", "\n#define A ", "\n#define F(x) ", "\n#undef A\n", "\n#if ", "\n#endif\n", '"s"', "'", "(", "\n#include \"i.h\"\n", "\n#include \"k.h\"\n", "/*", "defined "]
TOKD = ["A", "F(x)", "G(", "x", "##", "#", "#x", ",", ")", "1", "(", '"', "F", "/**/", "##x", "...", "\n#define A ", "\\\n"]
TOKE = ["1", "0", "/", "%", "(", ")", "?", ":", "&&", "||", "!", "A", "F", "F(1)", "defined", "defined(", "x", '"s"', "'a'", "==", ",", "#", "\\\n", "-", "08", "1L", "9999999999"]
def toks(name, a, alpha, k, b):
    """k freely chosen tokens between a and b"""
    res = Result(); sels = [B("tok%d" % i) for i in range(k)]; pc = PC(); src = flat(a)
    for s in sels:
        pc.assume(s.ult(len(alpha))); w = max(map(len, alpha)); ts = [" " * (w - len(t)) + t for t in alpha]
        for i in range(w):
            e = const(ord(ts[0][i]), 8)
            for o in range(1, len(ts)): e = s.eq(o).ite(const(ord(ts[o][i]), 8), e)
            src.append(e.val if e.val is not None else e)
    src += flat(b); res.count("sources"); res.sample({"before": a[-80:], "token_choices": list(alpha), "tokens": k, "after": b[:80]})
    for p in run(src, pc, FILES, steps=300000):
        judge(res, p, src, name, FILES)
        if len(res.viols) > 3: break
    return res
def limit(name, a, unit, n, vals, b, expf=None, steps=3000000, files=None):
    """n repetitions of unit, then free bytes from vals: the limit is crossed or not depending on them"""
    fs = dict(FILES); fs.update(files or {})
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals): pc.assume(inset(v, [ord(c) for c in s]))
    body = "".join(unit(i) for i in range(n)) if callable(unit) else unit * n
    src = flat(a, body, vs, b); res.count("sources"); res.sample({"limit": name, "repetitions": n, "free_bytes": len(vals)})
    def exp(f):
        ch = [next(c for k, c in enumerate(s) if k == len(s) - 1 or f.dec(v.eq(ord(c)))) for v, s in zip(vs, vals)]
        return expf(a, body, "".join(ch), b)
    for p in run(src, pc, fs, steps=steps):
        judge(res, p, src, "%s, %d" % (name, n), fs, exp if expf else None)
        if len(res.viols) > 3: break
    return res
PLAIN = lambda a, m, w, b: re.sub(r"\s", "", a + m + w + b)
D0 = "#define A 1 B\n#define B() A x\n#define F(x) x #x A\n#define G(x,y) x##y F(x)\n"
if __name__ == "__main__":
    C = Check("P06", "other", "scpp's main executed symbolically (LLVM IR, every memory access checked against its object) on sources with windows of free bytes and tokens and on sources around each internal limit; no path may end in a memory error or exceed the step bound", [
        "windows of 2 to 4 bytes (all 256 values) and 3 to 4 tokens in fixed contexts", "limits are approached with symbolic lengths from both sides", "memory objects: variables, arrays and structures as wholes; an index that stays inside the same structure isn't detected", "the bitcode of the host build (clang -O1)"])
    mod(); sx.native("scpp"); sx.native("scpp", asan=True) if "asan" in sx.native.__code__.co_varnames else None
    T = C.thorough; A = list(range(256)); N = 3 if T else 2
    CT = {"text": ("x ", " y\n"), "start": ("", " y\n"), "end": ("x ", ""), "body": (D0 + "#define H(x) x", " x\nH(1) H(A)\n"), "params": (D0 + "#define H(", ") x\nH(1)\n"), "name": (D0 + "#define ", " x\nA\n"), "args": (D0 + "G(1", ",2) F(3)\n"), "if": (D0 + "#if 1", "\n2\n#endif\n"), "ifx": (D0 + "#if ", "1\n2\n#endif\n"), "directive": (D0 + "#", "\n2\n"), "directive2": (D0 + "#i", "f 1\n2\n#endif\n"), "str": ('F("', '")\n'), "include": ('#include ', 'i.h"\nx\n'), "includeu": ('#include <', '>\nx\n'), "includee": ('#include <i.h', ''), "skip": ("#if 0\n", "\n#endif\n"), "skipe": ("#if 0\n#e", "\n"), "undef": (D0 + "#undef ", "\nA F(1)\n"), "defined": (D0 + "#if defined", "\n#endif\n"), "paste": (D0 + "#define H(x) x##", "##x\nH(1) H() H(+)\n"), "call": (D0 + "F(A", ""), "num": ("#if 0", "1\n#endif\n"), "cmt": ("/*", "*/ x\n"), "def end": ("#define A x", "")}
    for n, (a, b) in CT.items():
        C.job("bytes:" + n, win, "bytes in " + n, a, [A, A if T and n not in ("body", "include", "paste", "args", "params") else list(b"\0\"'\\/*\n\r\t #(),AFx01.+-<>=!&|?:;~_@\x7f\xff"), A][:N] if n != "includeu" else [A, list(b">.a\n\\/ \0")][:2], b)
        if T or n in ("text", "body", "if", "end"): C.job("bytes3:" + n, win, "bytes in " + n, a, [list(b"\"'\\/*\n #(),AFx0\0\xff")] * (N + 1), b)
    for n, a, b in [("text", D0, "\n"), ("textend", D0, ""), ("textcond", D0 + "#if 1\n", "\n#endif\n"), ("arg", D0 + "G(", ",1)\n"), ("fresh", "", ")\n")]: C.job("toks:" + n, toks, "tokens in " + n, a, TOK, 4 if T else 3, b)
    for n, a, b in [("body", D0 + "#define H(x) ", "\nH(1) H(A) H()\n"), ("body0", D0 + "#define C ", "\nC C(1)\n"), ("body1", D0 + "#define K() ", "\nK() K\n"), ("body2", "#define F(x) ", "\nF(F(1)) F((2,3)) F(,) F(\n"), ("body3", D0 + "#define H(x,y) F(x", ") y\nH(A,B) H(F(1),G)\n")]: C.job("tokd:" + n, toks, "tokens in " + n, a, TOKD, 4 if T else 3, b)
    for n, a, b in [("if", D0 + "#if ", "\n2\n#endif\n"), ("elif", D0 + "#if 0\n#elif 1 ", "\n2\n#endif\n"), ("ifend", D0 + "#if 1 + ", ""), ("ifp", D0 + "#if (1 ", ")\n#endif\n")]: C.job("toke:" + n, toks, "tokens in " + n, a, TOKE, 4 if T else 3, b)
    def L(*a, files=None): C.job("limit:%s.%d" % (a[0], a[3]), lambda: limit(*a, files=files))
    W = ["a \n"] * (4 if not T else 6)
    for n in (2030, 2036, 2040, 2043, 2044, 2045, 2046, 2047, 2048, 2050, 4000): L("identifier", "", "a", n, W, " b\n", PLAIN)
    for n in (2030, 2040, 2044, 2045, 2046, 2047, 2048): L("number", "", "1", n, ["1 +"] * 4, " b\n", PLAIN); L("string", '"', "1", n, ['1"'] + ["1"] * 3, '"\n', lambda a, m, w, b: PLAIN(a, m, w, b) if '"' not in w else None); L("char", "'", "1", n, ["1\\'"] * 3, "'\n"); L("if name", "#ifdef ", "a", n, W, "\n#endif\n"); L("define name", "#define ", "a", n, W, "\nx\n"); L("include name", "#include <", "a", n, ["a>"] * 3, ">\n"); L("include string", "#include \"", "a", n, ["a\""] * 3, "\"\n"); L("include open", "#include <", "a", n, ["a>"] * 3, ""); L("body token", "#define A ", "b", n, W, " c\nA A\n"); L("argument token", "#define F(x) x x\nF(", "b", n, ["a )"] * 3, ")\n"); L("line number", "", "x" * 50 + "\n", 2, ["a"] * 1, " __LINE__ " * (n // 3) + "\n"); L("undef name", "#undef ", "a", n, W, "\n"); L("if number", "#if ", "1", n, ["1 "] * 3, "\n#endif\n"); L("paste", "#define C(x,y) x##y\n#define D(x) C(x,1)\nC(", "b", n // 2, ["b,"] * 2, ",%s)\n" % ("c" * (n // 2 - 8))); L("stringize", "#define S(x) #x\nS(", "b", n // 8, ["b \""] * 3, ")\n")
    for n in (120, 240, 248, 250, 252, 254, 256, 258, 300): L("stringize", "#define S(x) #x x\nS(", "b", n, ["b \\\""] * 3, ")\n"); L("stringize quotes", "#define S(x) #x x\nS(\"", "\\\\", n // 4, ["b\\\""] * 3, "\")\n")
    for n in (12, 13, 14, 15, 16, 17, 20, 40): L("macros", "", lambda i: "#define A%d %d\n" % (i, i), n, ["#/"], "define Z 1\nZ\n"); L("parameters", "#define F(x", lambda i: ",y%d" % i, n, [",)"] * 2, "z) 1\nF\n"); L("parameters many", "", lambda i: "#define F%d(x,y,z)x y z\n" % (i % 12), n, [" \n"], "F1(1,2,3)\n"); L("undefs", "", lambda i: "#define A 1\n#undef A\n", n, [" \n"] * 2, "A\n", lambda a, m, w, b: "A"); L("arguments", "#define F(x) x\nF(1", ",1", n, [",)"] * 2, ")\n"); L("redefine", "", lambda i: "#define F(x%d) x%d\n#undef F\n" % (i % 3, i % 3), n, [" \n"] * 2, "\n#define F(y) 3\nF(1)\n", lambda a, m, w, b: "3")
    for n in (13, 14, 15, 16, 17, 18, 40): L("conditionals", "", "#if 1\n", n, ["#/"], "if 1\n/\n" + "#endif\n" * n); L("conditionals skipped", "#if 0\n", "#if 1\n", n, ["#/"], "if 1\n/\n" + "#endif\n" * n)
    for n in (50, 60, 62, 63, 64, 65, 100, 120, 125, 126, 127, 128, 129, 130, 200): L("body tokens", "#define A ", "b ", n, ["b+ "] * 3, "\nA\n", lambda a, m, w, b: re.sub(r"\s", "", m + w)); L("argument tokens", "#define F(x) x\nF(", "b ", n, ["b+ "] * 3, ")\n", lambda a, m, w, b: re.sub(r"\s", "", m + w)); L("many calls", "#define F(x) x\n#define G(x,y) F(x)y\n", "G(1,2) ", n, ["F "], "(3)\n", None); L("empty calls", "#define F(x)\n#define E() F\n", "F(1 2 3) E() ", n, ["F "], "(3)\n", lambda a, m, w, b: "F" * n_of(m) + ("" if w == "F" else "(3)") if 0 else None); L("undef lists", "", lambda i: "#define A 1 2 3 4 5 6 7 8\nA\n#undef A\n", n, [" \n"], "A\n", lambda a, m, w, b: "12345678" * m.count("undef") + "A")
    for n in (6, 7, 8, 9, 10, 11, 12, 20): L("nested macros", "", lambda i: "#define A%d A%d\n" % (i, i + 1) if i < 13 else "", n, ["1 "], "\nA0\n"); L("nested calls", "#define F(x) x\n#define G(x) F(x) x\n#define H(x) G(x) x\n#define I(x) H(x) x\n#define J(x) I(x) x\n#define K(x) J(x) x\n", "K(", n, ["1)"] * 2, ")" * n + "\n"); L("parentheses", "#define F(x) x\nF", "(", n * 4, ["1)"], ")" * n * 4 + "\n"); L("if parentheses", "#if ", "(", n * 20, ["1)"], ")" * n * 20 + "\n#endif\n"); L("if not", "#if ", "!", n * 20, ["1("], "\n#endif\n"); L("self nested", "#define F(x) x x\n", "F(", n, ["1)"], ")" * n + "\n"); L("arg nested", "#define F(x) G(x x)\n#define G(x) H(x x)\n#define H(x) #x x\n", "F(", n % 8, ["1A"], ")" * (n % 8) + "\n")
    for n in (1, 2, 6, 7, 8, 15, 16, 17): L("lookahead", "#define F(x) x\n", "F ", n, ["F\n ("] * 3, "\nF\n"); L("lookahead args", "#define F(x) x\n#define G F\n#define H G F\n", "H ", n, ["F\n ("] * 2, "\nF\n"); L("lookahead include", "#define F(x) x\n" + "F\n" * n, '#include "i.h"\n', min(n, 5), ["F\n ("] * 2, "1)\nF\n")
    for n in (1, 2, 3, 4, 5): L("includes", "", lambda i: '#include "f0.h"\n', n, ["x "], "\n", files={"f%d.h" % i: '#include "f%d.h"\nz\n' % (i + 1) if i < n - 1 else "end\n" for i in range(n)})
    L("include itself", "", '#include "p.h"\n', 1, ["x "], "\n")
    for n in (508, 509, 510, 511, 512, 513, 1020, 1021, 1022, 1023, 1024): L("buffer", "", "a" * 31 + "\n", n // 32, ["x \n"] * 2, "b" * (n % 32) + "\n#include \"i.h\"\nc\n", lambda a, m, w, b: re.sub(r"\s", "", m + w + b.split("#")[0]) + "Fc"); L("output buffer", "", "a" * 31 + ";", n // 32, ["x;"] * 2, "b" * (n % 32) + "\nc\n", PLAIN)
    C.bounds = {"free_bytes": N, "tokens": 4 if T else 3, "limit_sources": sum(1 for j in C.jobs if j[0].startswith("limit"))}
    sys.exit(C.run(need=["sources", "paths", "accepted", "rejected"]))
