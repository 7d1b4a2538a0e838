"""C05: function calls in code compiled by scc."""
from ccgen import *
from cclib import *
def mix(ps):
    """a function body combining parameters so that swapped, lost or wrongly sized arguments show"""
    e = "0"
    for i, (t, n) in enumerate(ps):
        v = {"int": n, "unsigned": n, "char": n, "unsigned char": n, "int*": "*" + n, "char*": "*" + n, "struct S*": n + "->y"}[t]
        e = "(%s << 1) + %s" % (e, v) if i else v
    return e
SIGS = {"n0": ("int", []), "n1": ("int", ["int"]), "n2": ("int", ["int", "int"]), "n3": ("int", ["int", "char", "unsigned"]), "n4": ("unsigned", ["int", "int", "unsigned char", "int"]), "n5": ("int", ["int", "int", "int", "int", "int"]), "n7": ("int", ["char", "int", "unsigned char", "int", "int", "unsigned", "char"]),
        "n8": ("int", ["int"] * 8), "rc": ("char", ["int"]), "ruc": ("unsigned char", ["int", "int"]), "pi": ("int", ["int*", "int"]), "pc": ("int", ["char*", "char*"]), "ps": ("int", ["struct S*", "int"]), "cc": ("char", ["char", "unsigned char"]), "n6": ("int", ["unsigned", "int", "char", "int", "unsigned char", "int"])}
def defs():
    out = []
    for n, (rt, ps) in SIGS.items():
        pn = [(t, "p%d" % i) for i, t in enumerate(ps)]
        out.append("%s %s(%s) { %s return %s; }" % (rt, n, ", ".join("%s %s" % x for x in pn), "int z[3]; z[1] = g; " if len(ps) % 2 else "", (mix(pn) if pn else "g2") + (" + z[1]" if len(ps) % 2 else "")))
    out.append("int* rp(int i) { return &arr[i & 3]; }\nstruct S* rs(int i) { return &sa[i & 1]; }\nchar* rq(int i) { return ca + (i & 3); }\nstruct FP { int n; int (*op)(int, int); int (*f1)(int); }; struct FP fs; struct FP fq;\nint add(int x, int y) { return x + y; }\nint sub(int x, int y) { return x - y; }\nint neg(int x) { return -x; }\nvoid setg(int v) { g = v; }\nint ap1(int x, struct FP* q) { int (*f)(int); int z; f = q->f1; z = x; return (*f)(z) - f(x + 1) + q->f1(2); }\n"
               "int rec(int n, int m) { if (!n) return m; return rec(n - 1, m + n) + n; }\nint fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }\nint od(int n);\nint ev(int n) { if (n == 0) return 1; return od(n - 1); }\nint od(int n) { if (n == 0) return 0; return ev(n - 1); }\nint loc(int n, int m) { int q[4]; char w; int i; w = m; for (i = 0; i < 4; i++) q[i] = n + i; if (n & 1) return loc(n - 1, q[2]) + q[3] + w; return q[1] - w; }\n"
               "int wr(int* p, int v) { *p = v; return v; }\nint wrc(char* p, int v) { *p = v; return *p; }\nint chg(int a, char b) { a = a + 3; b += 5; a = a - b; return a; }\nint par(int a, int b) { int* p; p = &b; *p = a; p = &a; *p += 2; return a - b * 4; }\n")
    return "\n".join(out) + "\n"
class Calls:
    def __init__(self, rnd): self.r = rnd
    def val(self): return self.r.choice(["a", "b", "x", "y", "u", "v", "g", "h", "c", "k", "1", "2", "-3", "300", "l", "m", "s.y", "s.w", "arr[1]", "ca[a & 3]", "-a", "~b", "(a < b)", "!a", "*p", "a & 255", "(char)a", "sa[1].x"])
    def e(self, d):
        r = self.r
        if d == 0: return self.val()
        k = r.random()
        if k < .62: return self.call(d - 1)
        if k < .9:
            l, q = self.e(d - 1), self.e(r.randrange(d))
            if q.lstrip("-").isdigit() and l.lstrip("-").isdigit(): l = "a"
            return "(%s %s %s)" % (l, r.choice(["+", "-", "^", "&", "|", "+", "-"] + (["<", "=="] if d < 2 else [])), q)
        if k < .95: return "(%s ? %s : %s)" % (r.choice(["a", "x < y", "n1(b)"]), self.e(d - 1), self.e(d - 1))
        return "(%s)" % self.e(d - 1) if k < .97 else "-%s" % self.call(d - 1)
    def call(self, d):
        r = self.r; k = r.random()
        if k < .12: return r.choice(["fs.op(%s, %s)", "(*fs.op)(%s, %s)", "lf(%s, %s)", "(*lf)(%s, %s)", "lq->op(%s, %s)"]) % (self.e(d), self.e(d))
        if k < .2: return r.choice(["rp(%s)[1 - 1]", "*rp(%s)", "rs(%s)->y", "rs(%s)->w", "*rq(%s)", "lf1(%s)", "fs.f1(%s)", "ap1(%s, &fs)", "rs(%s)->x", "wr(&l, %s)", "wrc(&lc, %s)", "chg(%s, 3)", "par(7, %s)"]) % self.e(d)
        n = r.choice(list(SIGS)); ps = SIGS[n][1]
        if len(ps) > 6 and r.random() < .5: n = "n4"; ps = SIGS[n][1]
        args = []
        for i, t in enumerate(ps):
            if t == "int*": args.append(r.choice(["&g", "arr", "arr + 2", "&l", "&arr[b & 3]", "rp(%s)" % self.val(), "p"]))
            elif t == "char*": args.append(r.choice(["&c", "ca", "ca + 1", "&ca[a & 3]", "rq(%s)" % self.val(), "&s.x", "&lc"]))
            elif t == "struct S*": args.append(r.choice(["&s", "sa", "&sa[1]", "&sa[a & 1]", "rs(%s)" % self.val()]))
            else: args.append(self.e(d if i < 3 and r.random() < .5 else 0))
        return "%s(%s)" % (n, ", ".join(args))
PRE = "int l; int m; char lc; int* p; int (*lf)(int, int); int (*lf1)(int); struct FP* lq; l = a; m = 5; lc = b; p = &g2; lf = add; lf1 = inc; lq = &fq; fs.op = sub; fs.f1 = neg; fq.op = add; fq.f1 = &id; "
FORMS = ["return {e};", "int r_ = {e}; return r_ + l - m + lc;", "if ({e}) return l; return m + lc;", "l = {e}; return l ^ m;", "{e}; return l + lc;", "arr[{v} & 3] = {e}; return 1;", "return {e} - m;", "return l - {e};", "g = {e} + l; return m;", "c = {e}; return lc;", "{{ int w[5]; w[2] = {e}; l += w[2]; }} return l;", "while ({e}) return l; return m;", "switch ({e}) {{ case 1: return l; case 2: return m; }} return lc;", "return (l + ({e})) ^ (m - ({v}));", "s.y = {e}; s.x = {e}; return s.x;", "return ({e}) < ({v});", "return {v} && {e};", "for (l = 0; l < 2; l++) m += {e}; return m;", "if (x) return {e}; return {v};"]
SIMPLE = ["(a ? id : inc)(3)", "(a ? lf1 : inc)(b)", "(lf1 = fs.f1, lf1(a))", "(a & 1 ? lf : lq->op)(b, 4)", "(*(x ? fs.op : lf))(a, b)", "(lq->op = lf, lq->op(a, b) - b)", "rec(a & 3, b)", "fib(a & 7)", "ev(a & 7)", "od(a & 7) + b", "loc(a & 3, b)", "rec(rec(a & 1, 1) & 3, id(b))", "id(id(id(a)))", "n3(n1(a), n1(b), n1(u))", "a + n2(b, g) * 2", "(setg(a), g)", "ap1(a, &fs)", "ap1(a, lq)", "(a & 1 ? add(a, b) : sub(a, b))", "n2(a, n2(b, n2(x, n2(y, 3))))", "n8(a, b, x, y, u, v, g, n8(1, 2, 3, 4, 5, 6, 7, a))", "n5(1, a, n5(2, b, 3, x, 4), y, n8(a, b, 1, 2, 3, 4, 5, 6))", "wr(&l, a) + l", "(wr(&arr[a & 3], b), arr[1])", "par(a, b)", "chg(a, b)", "n2(a, b) + n2(b, a) - n2(x, y)", "(a + b) - n2((a - b), (x + y)) + (g - h)", "id(a)[arr] - 0" if 0 else "arr[id(a) & 3]", "rp(a)[0] + rp(b)[0]", "*rp(a) - rs(b)->y", "rs(a)->z + rq(b)[0]", "inc(a) + id(b)", "id(a) < id(b)", "!id(a)", "id(a) && id(b)", "-id(a)", "(char)id(a)", "uid(u) / 3", "cc(a, b)", "rc(a) + ruc(a, b)", "n2(-1, 'a')", "n2(sizeof(s), 300)", "pc(\"ab\", \"c\")", "undeclared_(a) + 1"]
HELP2 = HELP + defs() + "int undeclared_(int n);\n"
EXTRA = "int undeclared_(int n) { return n * 2; }\n"
SUMV = "int vsum(int n, ...) { va_list vl; int r; r = 0; va_start(vl, n); while (n--) r = r * 2 + va_arg(vl, int); va_end(vl); return r; }\n"
VMIX = "int vmix(char* f, ...) { va_list vl; int r; r = 0; va_start(vl, f); while (*f) { r = r * 2; if (*f == 'i') r += va_arg(vl, int); else if (*f == 'c') r += (char)va_arg(vl, int); else r += *va_arg(vl, int*); f++; } va_end(vl); return r; }\n"
VARG = ["vsum(3, a, b, g)", "vsum(1, a)", "vsum(0)", "vsum(9, a, b, 1, 2, x, y, u, v, c)", "vsum(2, vsum(2, a, b), -3)", "vsum(a & 3, b, g, u)", "vmix(\"ici\", a, b, u)", "vmix(\"pi\", &g, 300)", "vmix(\"ppc\", p, arr + 1, a)", "vmix(\"\")", "vmix(\"iiiiiiiicc\", 1, a, 3, b, 5, u, 7, x, 9, y)", "a - vsum(2, b, 3) * 2", "vsum(2, a, id(b)) < vmix(\"i\", u)", "vtwo(2, a, b)", "vcp(3, a, b, u)"]
VDEF = SUMV + VMIX + "int vtwo(int n, ...) { va_list v1; va_list v2; int q[3]; va_start(v1, n); va_start(v2, n); q[0] = va_arg(v1, int); q[1] = va_arg(v2, int); q[2] = va_arg(v1, int); va_end(v1); va_end(v2); return q[0] - q[1] + q[2]; }\nint vl_(int n, va_list vl) { int r; r = 0; while (n-- > 0) r = r * 4 - va_arg(vl, int); return r; }\nint vcp(int n, ...) { va_list vl; char z[7]; int r; z[2] = n; va_start(vl, n); r = vl_(z[2], vl); va_end(vl); return r; }\n"
def tree(rnd, n):
    return [body(PRE + (rnd.choice(FORMS).replace("{v}", "%(v)s").replace("{e}", "%(e)s").replace("{{", "{").replace("}}", "}") % {"v": Calls(rnd).val(), "e": Calls(rnd).e(rnd.choice([1, 2, 2, 3]))})) for _ in range(n)]
if __name__ == "__main__":
    C = Check("C05", "translation_validation", "scc's output executed symbolically on an 8086 model vs. the same C text compiled by clang for a 16-bit target and executed symbolically; SMT (QF_BV) decides equality of results, objects, SP and BP after return", [
        "argument values: all; recursion depth bounded by the program (at most 7)", "program texts are call shapes enumerated and randomly nested (seeded), up to 13 arguments", "clang 18's C semantics is the oracle; inputs for which C leaves the result undefined are excluded"])
    rnd = random.Random(C.seed); N = 8000 if C.thorough else 1500
    tr = tree(rnd, N); si = [body(PRE + f.replace("{e}", "(%s)" % e).replace("{v}", v).replace("{{", "{").replace("}}", "}")) for e in SIMPLE for f in FORMS for v in ["b"]]
    C.bounds = {"random_calls": len(tr), "fixed_calls": len(si), "arguments": 13, "recursion": 7}
    sx.native("scc")
    for nm, fs, n in (("fixed", si, 30), ("tree", tr, 40)):
        for i, c in enumerate(chunks(fs, n)): C.job("%s%d" % (nm, i), run_batch, Batch("%s%d" % (nm, i), DECLS, [Fn(f.name, f.text, f.ret, f.args, tag=f.tag) for f in c[:-1]] + [Fn(c[-1].name, c[-1].text + "\n" + EXTRA, c[-1].ret, c[-1].args, tag=c[-1].tag)], GLOBALS, HELP2))
    vf = [body(PRE + f.replace("{e}", "(%s)" % e).replace("{v}", "b").replace("{{", "{").replace("}}", "}")) for e in VARG for f in FORMS]
    for i, c in enumerate(chunks(vf, 30)): C.job("varargs%d" % i, run_batch, Batch("va%d" % i, DECLS, c, GLOBALS, HELP2 + EXTRA + VDEF))
    C.bounds["variable_arguments"] = len(vf)
    sys.exit(C.run(need=["path_pairs", "programs"], limits={"undecided": ("programs", 0.02)}))
