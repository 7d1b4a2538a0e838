"""C08: scc on arbitrary input: windows of free bytes and of freely chosen tokens, and sources around every internal limit. Every path must end
with an exit status, without a memory error and within the step bound."""
from pplib import *
def judge(res, p, src, what):
    res.count("paths"); why = None
    if p.st not in ("EXIT", "ABORT", "ASSERT"): why = "ends with %s %s" % (p.st, p.msg)
    elif rejected(p): res.count("rejected")
    else:
        res.count("accepted")
        if p.file("p.com") is None: why = "exits with 0 without an output file"
    if why: report(res, "%s: %s" % (what, re.sub(r"0x[0-9a-f]+|\d+", "#", why)[:90]), why, src, p.pc.model(), tool="scc", outname="p.com", asan=True)
def go(res, name, src, pc, steps):
    for p in sx.run_main(mod("scc"), ["scc", "p.c"], {"p.c": src}, pc=pc, paths=600000, steps=steps, time_=700, rng=1100, conc=300):
        judge(res, p, src, name)
        if len(res.viols) > 3: break
    return res
def win(name, a, vals, b, steps=600000):
    """free bytes (each from a set of values) between a and b"""
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals):
        if len(s) < 256: pc.assume(inset(v, s))
    src = flat(a, vs, b); res.count("sources"); res.sample({"before": a[-80:], "free_bytes": len(vals), "after": b[:80]})
    return go(res, name, src, pc, steps)
def toks(name, a, alpha, k, b):
    """k freely chosen tokens between a and b"""
    res = Result(); sels = [B("tok%d" % i) for i in range(k)]; pc = PC(); src = flat(a)
    for s in sels: pc.assume(s.ult(len(alpha))); src += pad(s, [t.encode() for t in alpha])
    src += flat(b); res.count("sources"); res.sample({"before": a[-80:], "token_choices": list(alpha), "tokens": k, "after": b[:80]})
    return go(res, name, src, pc, 600000)
def limit(name, a, unit, n, vals, b, steps=60000000):
    """n repetitions of unit, then free bytes from vals: the limit is crossed or not depending on them"""
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals): pc.assume(inset(v, [ord(c) for c in s]))
    body = "".join(unit(i) for i in range(n)) if callable(unit) else unit * n
    src = flat(a, body, vs, b); res.count("sources"); res.sample({"limit": name, "repetitions": n, "free_bytes": len(vals)})
    return go(res, "%s, %d" % (name, n), src, pc, steps)
D0 = "struct S { int a; char b[3]; struct S* n; } s; union U { int i; char c[2]; } u; int t[4]; char* p; enum { E = 2 }; int g;\nint h(int a, char b) { return a; }\nint v(int a, ...) { return a; }\n"
F0 = D0 + "int f(int x, char* q, struct S* r)\n{ int i; char c; struct S l; int m[3]; int (*fp)(int);\n"
F1 = "\nreturn i; }\nvoid _start(void) { f(1, p, &s); }\n"
EX = [" x", " q", " r", " 2", "(", ")", " *", "[", "]", "+", "-", "=", "++", " s", ".a", "->n", " &", ",", " h", "?", ":", "!", " sizeof", "(char)", " \"s\"", "/", " m", "&&", "<<", "=="]
ST = [" x", "=", "1", ";", " {", "}", " if(", ")", " else", " while(", " for(", " do", " switch(", " case", ":", " default", " break", " continue", " return", " goto", " L", "(", " int", ","]
DE = ["int ", "char ", "struct S ", "struct ", "union ", "enum ", "typedef ", "const ", "unsigned ", "static ", "void ", " X", " S", "*", "(", ")", "[", "]", "{", "}", ";", ",", "=", "3", "..."]
if __name__ == "__main__":
    C = Check("C08", "other", "scc's main executed symbolically (LLVM IR, every memory access checked against its object) on sources with windows of free bytes and tokens and on sources around each internal limit; no path may end in a memory error or exceed the step bound", [
        "windows of 2 or 3 bytes (all 256 values or the stated classes) and 2 to 4 tokens in fixed contexts", "limits are approached with symbolic lengths from both sides", "memory objects: variables, arrays and structures as wholes; an index that stays inside the same structure isn't seen as an error", "sources of at most 64 KB, so that the nesting of the recursive parser stays within the host's stack; the host build"])
    mod("scc"); sx.native("scc"); sx.native("scc", asan=True); T = C.thorough; A = list(range(256)); N = 3 if T else 2
    SM = list(b" \n0a_(){}[];,.*&-+=<!\"'/\\#?:\0\x80\xff"); C2 = A if T else list(b" a0;(*\"/\0")
    CT = {"start": ("", "\nint g;\n"), "end": ("int g; ", ""), "unit": ("int g; ", " int z;\n"), "name": (D0 + "int a", " = 1;\n"), "decl": (D0 + "int *", "x;\n"), "init": (D0 + "char w[] = ", ";\n"), "initn": (D0 + "int w = ", "2;\n"), "dim": (D0 + "int w[", "];\n"), "members": (D0 + "struct Q { int ", "; } ;\n"), "enum": (D0 + "enum { A", ", B };\n"), "params": (D0 + "int k(int a", ") { return 1; }\n"), "fbody": (F0 + "int z", "\n" + F1), "expr": (F0 + "i = x ", " 2;" + F1), "lhs": (F0 + "", " = 2;" + F1),
        "post": (F0 + "i = r", "a;" + F1), "arg": (F0 + "i = h(1", ", 2);" + F1), "cond": (F0 + "if (x ", " 1) i = 2;" + F1), "case": (F0 + "switch (x) { case 1", ": i = 1; }" + F1), "label": (F0 + "goto L; L", ": i = 1;" + F1), "str": (F0 + 'q = "a', 'b";' + F1), "strend": (F0 + 'q = "a', ""), "chr": (F0 + "c = '", "';" + F1), "num": (F0 + "i = 1", ";" + F1), "hex": (F0 + "i = 0x", ";" + F1), "cmt": (F0 + "i = 1; /* ", " */" + F1), "line": (F0 + "i = 1; // ", "\n" + F1), "sizeof": (F0 + "i = sizeof", "int);" + F1), "cast": (F0 + "i = (char", ")x;" + F1), "for": (F0 + "for (;;", ") { break; }" + F1), "emit": (F0 + "_emit ", " 0x90" + F1), "va": (D0 + "int k(int a, ...) { va_list z; va_start(z", "a); return va_arg(z, int); }\n")}
    for n, (a, b) in CT.items():
        C.job("bytes:" + n, win, "bytes in " + n, a, [A, C2] + ([SM] if T else []), b)
    for n, a, b in [("expr", F0 + "i = ", ";" + F1), ("stmt", F0, ";" + F1), ("cond", F0 + "if (", ") i = 1;" + F1), ("arg", F0 + "h(", ");" + F1), ("arg2", F0 + "i = v(1,", ", 2);" + F1), ("index", F0 + "m[", "] = 1;" + F1), ("assign", F0, " = x;" + F1), ("ret", F0 + "return ", ";" + F1), ("case", F0 + "switch (x) { case ", ": i = 1; }" + F1), ("init", F0 + "int z = ", ";" + F1), ("for", F0 + "for (i = 0; ", "; i++) c = 1;" + F1)]:
        C.job("toke:" + n, toks, "expression tokens in " + n, a, EX, 3, b)
    C.job("toke4", toks, "expression tokens", F0 + "i = ", EX if T else EX[:14], 4, ";" + F1)
    for n, a, b in [("body", F0, F1), ("open", F0, ""), ("if", F0 + "if (x) ", F1), ("switch", F0 + "switch (x) { ", "}" + F1), ("loop", F0 + "while (x) { ", "}" + F1)]: C.job("toks:" + n, toks, "statement tokens in " + n, a, ST, 4 if T else 3, b)
    for n, a, b in [("file", D0, ";"), ("start", "", "\n"), ("struct", D0 + "struct Z { ", "} z;\n"), ("param", D0 + "int k(", ") { return 1; }\n"), ("local", F0, ";" + F1), ("enum", D0 + "enum ", ";\n"), ("cast", F0 + "i = (", ") x;" + F1), ("sizeof", F0 + "i = sizeof(", ");" + F1), ("after", D0 + "int z ", "\nint y;\n")]: C.job("tokd:" + n, toks, "declaration tokens in " + n, a, DE, 4 if T else 3, b)
    def L(*a, **k): C.job("limit:%s.%d" % (a[0], a[3]), lambda: limit(*a, **k))
    U = D0; E2 = " return 0; }\nvoid _start(void) { }\n"
    for n in (100, 4000, 4700, 4750, 4800, 4900, 5000, 5100, 6000): L("identifier", "int ", "a", n, ["a;"] * 2, "; int b;\n")
    for n in (40, 45, 46, 47, 48, 49, 50, 60): L("identifier text", "", lambda i: "int a%s%03d;\n" % ("x" * 95, i), n, ["/i"], "nt x; int b;\n")
    for n in (370, 374, 375, 376, 377, 378, 379, 380, 381, 400): L("variables", "", lambda i: "int a%d;" % i, n, ["/i"], "nt x; int b;\nint y; int f(int a) { int z; return 1; }\n")
    for n in (160, 200, 206, 300, 330, 335, 340): L("names", "enum { a", lambda i: ",e%d" % i, n, ["/,"], "x }; int f() { }\n")
    for n in (500, 520, 535, 540, 541, 542, 543, 544, 545, 546, 547, 550, 600): L("locals names", "int f() {", lambda i: "{ int a%d; }" % i, n, ["/{"], "int x; } }\n")
    for n in (1, 12, 13, 14, 15, 16, 17, 40): L("scopes", "int f() {", "{ int a;", n, ["/{"], " a = 1; " + "}" * n + "/*\n*/ }\n"); L("scopes if", "int f(int x) {", "if (x) { ", n, ["/{"], " x = 1; " + "}" * n + "}\n")
    for n in (60, 100, 104, 105, 106, 107, 150, 158, 159, 160, 161, 310, 315, 318, 319, 320, 321, 330): L("labels", "int f(int x) {", "if (x) x = 1;", n, ["/i"], "f (x) x = 2; return x; }\n"); L("labels nested", "int f(int x) { return ", "x ? 1 : ", n, ["x1"], "; }\n") if n < 200 else None; L("logical", "int f(int x) { return x", " && x", n, [" &"], "& x; }\n") if n < 200 else None
    for n in (6, 7, 8, 9, 20): L("goto labels", "int f(int x) {", lambda i: "goto l%d;" % i, n, ["/g"], "oto m;\n%s m: return 1; }\n" % "".join("l%d: " % i for i in range(n))); L("parameters", "int f(int x", lambda i: ", int p%d" % i, n, ["/,"], "int q) { return x; }\n"); L("parameters declared", "int f(int", ", int", n, ["/,"], "int); int g;\n"); L("arguments", U + "int f() { return v(1", ", 2", n, ["/,"], "3); }\n"); L("function pointer", "int f(int a, int (*k)(int", ", int", n, [")"], ") { return a; }\n")
    for n in (6, 7, 8, 9, 20): L("structs", "", lambda i: "struct S%d { int a; };" % i, n, ["/s"], "truct T { int a; } t; \nint z;\n"); L("anonymous", "", lambda i: "struct { int a; } s%d;" % i, n, ["/s"], "truct { int a; } t; \nint z;\n")
    for n in (30, 31, 32, 33, 60): L("members", "struct S { int a", lambda i: "; int m%d" % i, n, ["/;"], "int q; } s;\nint z;\n"); L("arrays", "", lambda i: "int a%d[3];" % i, n, ["/i"], "nt z[2]; int q;\n"); L("array dimensions", "char a", "[1]", n, ["/["], "1]; int q;\n"); L("array parameters", "int f(int a) { ", lambda i: "char b%d[2];" % i, n, ["/c"], "har q[2]; return a; }\n")
    for n in (1000, 24000, 24400, 24480, 24500, 24510, 24530, 24560, 24570, 24576, 24580, 25000, 40000): L("string", "int f() { char* p; p = \"", "s", n, ["s\""] * 2, "\"; return 1; }\n"); L("string data", "char g[] = \"", "s", n, ["s\""] * 2, "\"; int z = 4; int f() { return 3; }\n")
    for n in (750, 755, 760, 762, 763, 764, 765, 766, 768, 770, 800): L("output", "int g; int f(int a, int b) {\n", "g = a; g = b; g = a; g = b; a = g; ", n * 24576 // 32 // 768 if 0 else n, ["/g"], " = a; return 1; }\n"); L("output data", "", lambda i: "char g%d[] = \"%s\";" % (i, "abcdefghijklmnopqrstuvwxyz012345" * 3) if i < 370 else "", n % 370, ["/i"], "nt z = 4; int f() { return 3; }\n")
    for n in (800, 1200, 2040, 2046, 2047, 2048, 2049, 2060, 3000, 4090, 4100): L("emit", "void f() {", " _emit 1 _emit 2 _emit 3 _emit 4 _emit 5 _emit 6 _emit 7 _emit 8 _emit 9 _emit 10 _emit 11 _emit 12", n, ["; "], " _emit 0x90 }\n")
    for n in (1, 60, 200, 300): L("parentheses", "int f(int x) { return ", "(", n, ["(x"], "1" + ")" * n + "; }\n"); L("unary", "int f(int x) { return ", "-", n, ["-~!*&"], "x; }\n"); L("unary x", "int f(int x) { return ", "-x + ", 2040 + n // 6, ["~-"], "x; }\n"); L("stars", "int ", "*", n, ["* "], "x; int y;\n"); L("declarator", "int ", "(", n, ["(*"], "x" + ")" * n + "; int y;\n"); L("nested index", "int t[4]; int f(int x) { return ", "t[", n, ["tx"], "[1]" + "]" * n + "; }\n"); L("nested call", "int f(int x) { return ", "f(", n, ["fx"], "(1)" + ")" * n + "; }\n"); L("right assoc", "int f(int x) { return ", "x = ", n, ["x1"], "; }\n"); L("loops", "int f(int x) { ", "while (x) ", n, [";x"], "; return 1; }\n"); L("sum right", "int f(int x) { return ", "x - (", n, ["x1"], ")" * n + "; }\n")
    for n in (1, 20, 21, 22, 40, 100, 400): L("cases", "int f(int x) { switch (x) {", lambda i: "case %d: x = 2; " % i, n, ["/c"], "ase -1: break; default: x = 1; } return x; }\n"); L("switches", "int f(int x) { ", lambda i: "switch (x) { case 1: ", n, ["/;"], "x = 1;\n" + "}" * n + "return x; }\n")
    for n in (254, 32766, 32767, 32768, 60000, 65535): L("local size", "int f() { char a[%d]; int b; a[1] = 2; b = 1;" % n, "", 0, ["b/"], " = 2;\nreturn b; }\n"); L("global size", "char a[%d]; int b[2]; char c[" % n, "", 0, ["12"], "]; int f() { b[0] = 1; return b[1]; }\n"); L("struct size", "struct S { char a[%d]; int b; } s; struct S q[2]; int f() { return q[1].b + s.b + sizeof(s); }" % n, "", 0, ["/ "], "\n")
    C.bounds = {"free_bytes": N, "tokens": 4 if T else 3, "limit_sources": sum(1 for j in C.jobs if j[0].startswith("limit"))}
    sys.exit(C.run(need=["sources", "paths", "accepted", "rejected"]))
