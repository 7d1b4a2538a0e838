"""P01: #if and #elif select by the value of their expression."""
from pplib import *
PREC = {"*": 3, "/": 3, "%": 3, "+": 4, "-": 4, "<": 6, ">": 6, "<=": 6, ">=": 6, "==": 7, "!=": 7, "&": 8, "^": 9, "|": 10, "&&": 11, "||": 12}
OPS = list(PREC)
W = 32
class X:
    """random expressions: text with symbolic characters, value and 'evaluates a division by zero' as terms"""
    def __init__(self, rnd): self.r = rnd; self.n = 0; self.cap = 4; self.cons = []; self.defs = []; self.vars = []
    def v(self, n): x = B("%s%d" % (n, self.n)); self.n += 1; self.vars.append(x); return x
    def digit(self, lo, hi): d = self.v("d"); self.cons.append(~d.ult(ord(lo)) & d.ule(ord(hi))); return d
    def num(self, k=None):
        r = self.r; k = "const" if self.n >= self.cap and k is None else k or r.choice(["d1", "d1", "d1", "d2", "hex", "oct", "const", "const", "d1L"])
        if k in ("d1", "d1L"): d = self.digit("0", "9"); return flat([d], "L" if k == "d1L" else ""), d.zx(W) - 48
        if k == "d2": a = self.digit("1", "9"); b = self.digit("0", "9"); return [a, b], (a.zx(W) - 48) * 10 + (b.zx(W) - 48)
        if k == "oct": a = self.digit("0", "7"); b = self.digit("0", "7"); return flat("0", [a, b]), (a.zx(W) - 48) * 8 + (b.zx(W) - 48)
        if k == "hex":
            a = self.v("h"); lo = r.random() < .5; base = ord("a") if lo else ord("A")
            self.cons.append((~a.ult(48) & a.ule(57)) | (~a.ult(base) & a.ule(base + 5)))
            return flat(r.choice(["0x", "0X"]), [a]), a.ule(57).ite(a.zx(W) - 48, a.zx(W) - (base - 10))
        c = r.choice(["0", "1", "2", "3", "7", "10", "100", "0x10", "0xFF", "017", "255", "32767", "0x7fff", "00", "12345"])
        return flat(c), const(int(c, 16) if c[1:2] in ("x", "X") else int(c, 8) if c[0] == "0" else int(c), W)
    def leaf(self):
        r = self.r; k = r.random()
        if self.n >= self.cap - 1 and .55 < k < .78: k = 0
        if k < .55: t, v = self.num(); return (t, v, None, 0)
        if k < .7:
            # defined NAME / defined(NAME) with a symbolic last character: defined, undefined by #undef, or never defined
            c = self.v("n"); self.cons.append(~c.ult(ord("A")) & c.ule(ord("F"))); self.usesdef = True
            s = r.choice(["defined N%s", "defined(N%s)", "defined ( N%s )", "defined  N%s", "defined(N%s )"]).split("%s")
            return (flat(s[0], [c], s[1]), c.ule(ord("C")).zx(W), None, 0)
        if k < .78:
            c = self.v("n"); self.cons.append(~c.ult(ord("A")) & c.ule(ord("F"))); self.usesdef = True
            return (flat("N", [c]), c.eq(ord("A")).ite(const(3, W), c.eq(ord("B")).ite(const(0, W), c.eq(ord("C")).ite(const(12, W), const(0, W)))), None, 0)
        if k < .84 and len(self.defs) < 3:
            nm = "M%d" % len(self.defs); t, v = self.num(); self.defs.append(flat("#define %s " % nm, t, "\n")); return (flat(nm), v, None, 0)
        if k < .9 and len(self.defs) < 3:
            nm = "G%d" % len(self.defs); t, v = self.num(); self.defs.append(flat("#define %s(x) (x %s " % (nm, "+"), t, ")\n")); t2, v2 = self.num(); return (flat(nm + "(", t2, ")"), v2 + v, None, 0)
        if k < .94: return (flat(r.choice(["undefd", "_x", "__LINE", "y9", "defin", "If"])), const(0, W), None, 0)
        return (flat("__SCC__"), const(1, W), None, 0)
    def sp(self): return self.r.choice(["", " ", " ", " ", "  ", "\t", "/**/", " /* c */ "])
    def par(self, e, need):
        t, v, err, p = e
        if need or self.r.random() < .08: return (flat("(", self.sp(), t, self.sp(), ")"), v, err, 0)
        return e
    def gen(self, d):
        r = self.r
        if d == 0: return self.leaf()
        k = r.random()
        if k < .1:
            t, v, e, p = self.gen(d - 1); t, v, e, p = self.par((t, v, e, p), p > 0); return (flat("!", self.sp(), t), v.eq(0).zx(W), e, 0)
        if k < .2:
            c = self.gen(d - 1); c = self.par(c, c[3] >= 13); a = self.gen(r.randrange(d)); b = self.gen(r.randrange(d))
            z = const(0, 1); ce = c[2] if c[2] is not None else z; ae = a[2] if a[2] is not None else z; be = b[2] if b[2] is not None else z; nz = c[1].ne(0)
            return (flat(c[0], self.sp(), "?", self.sp(), a[0], self.sp(), ":", self.sp(), b[0]), nz.ite(a[1], b[1]), ce | nz.ite(ae, be), 13)
        op = r.choice(OPS); p = PREC[op]; a = self.gen(d - 1); b = self.gen(r.randrange(d)); a = self.par(a, a[3] > p); b = self.par(b, b[3] >= p)
        va, vb = a[1], b[1]; z = const(0, 1); ea = a[2] if a[2] is not None else z; eb = b[2] if b[2] is not None else z; err = ea | eb
        bo = lambda c: c.zx(W)
        if op in ("/", "%"):
            err = err | vb.eq(0); dv = vb.eq(0).ite(const(1, W), vb); v = va.sdiv(dv) if op == "/" else va.srem(dv)
        elif op == "&&": v = bo(va.ne(0) & vb.ne(0)); err = ea | (va.ne(0) & eb)
        elif op == "||": v = bo(va.ne(0) | vb.ne(0)); err = ea | (va.eq(0) & eb)
        else: v = {"*": lambda: va * vb, "+": lambda: va + vb, "-": lambda: va - vb, "<": lambda: bo(va.slt(vb)), ">": lambda: bo(vb.slt(va)), "<=": lambda: bo(va.sle(vb)), ">=": lambda: bo(vb.sle(va)), "==": lambda: bo(va.eq(vb)), "!=": lambda: bo(va.ne(vb)), "&": lambda: va & vb, "^": lambda: va ^ vb, "|": lambda: va | vb}[op]()
        s2 = self.sp()
        if op == "/" and (s2[:1] == "/" or not s2 and b[0][0] == ord("/")): s2 = " "
        return (flat(a[0], self.sp(), op, s2, b[0]), v, err, p)
DEFS = "#define NA 3\n#define NB 0\n#define NC 12\n#define ND 5\n#undef ND\n"
def one(res, rnd, form, d, top=None):
    x = X(rnd); x.usesdef = False
    t, v, err, p = top(x) if top else x.gen(d)
    head = flat(DEFS if x.usesdef else "", *x.defs)
    src = head + flat(*[t if s is None else s for s in FORMS[form]])
    pc = PC()
    for c in x.cons: pc.assume(c)
    check(res, src, pc, v, err, show(t), form)
FORMS = {"if": ["#if ", None, "\nY\n#else\nN\n#endif\n"], "elif": ["#if 0\nA\n#elif ", None, "\nY\n#else\nN\n#endif\n"], "elif2": ["#if 0\nA\n#elif 0\nB\n#elif ", None, "\nY\n#else\nN\n#endif\n"], "noelse": ["N\n#if\t", None, "\n#undef N\n#define N\nY\n#endif\n"],
         "comment": ["#if(", None, ") // c\nY\n#elif 1\nN\n#endif"]}
FORMS["noelse"] = ["#if ! ( ", None, "\t)/*\n*/\nN\n#elif 1\nY\n#endif\n"]
def check(res, src, pc, v, err, what, form):
    import time; t0 = time.time()
    try: check1(res, src, pc, v, err, what, form)
    finally:
        if os.environ.get("SX_T") and time.time() - t0 > 2: print("%.1f %s" % (time.time() - t0, what), flush=True)
def check1(res, src, pc, v, err, what, form):
    res.count("expressions"); res.sample(what)
    z = const(0, 1) if err is None else err
    for p in run(src, pc):
        res.count("paths"); sig = "%s [%s]" % (what, form)
        if p.st not in ("EXIT", "ABORT", "ASSERT", "DIVZERO"): report(res, sig, "ends with %s %s" % (p.st, p.msg), src, p.pc.model()); return
        if rejected(p):
            mdl = p.pc.check(~z)
            if mdl is not None: report(res, sig, "rejected (%s %s), its value is %d" % (p.st, p.msg, v.eval(mdl)), src, mdl); return
            continue
        out = re.sub(r"\s", "", show(p.file("p.o")))
        if out not in ("Y", "N"): report(res, sig, "output is %r" % out, src, p.pc.model()); return
        mdl = p.pc.check(z | (v.ne(0) if out == "N" else v.eq(0)))
        if mdl is not None: report(res, sig, "group %s is chosen, the value is %s" % (out, "a division by zero" if z.eval(mdl) else v.eval(mdl)), src, mdl); return
def pair(o1, o2):
    """digits joined by two operators, with no parentheses and with either pair in parentheses"""
    res = Result()
    for shape in range(3):
        for lead in range(2):
            def top(x, shape=shape):
                n = [x.num("d1") for _ in range(3)]
                l = [(t, v, None, 0) for t, v in n]
                return combine(o1, o2, l, shape)
            one(res, random.Random(1), ["if", "elif"][lead], 0, top)
    return res
def bin_(op, a, b):
    va, vb = a[1], b[1]; z = const(0, 1); bo = lambda c: c.zx(W); ea = a[2] if a[2] is not None else z; eb = b[2] if b[2] is not None else z; e = ea | eb
    if op in ("/", "%"): e = e | vb.eq(0); dv = vb.eq(0).ite(const(1, W), vb); v = va.sdiv(dv) if op == "/" else va.srem(dv)
    elif op == "&&": v = bo(va.ne(0) & vb.ne(0)); e = ea | (va.ne(0) & eb)
    elif op == "||": v = bo(va.ne(0) | vb.ne(0)); e = ea | (va.eq(0) & eb)
    else: v = {"*": lambda: va * vb, "+": lambda: va + vb, "-": lambda: va - vb, "<": lambda: bo(va.slt(vb)), ">": lambda: bo(vb.slt(va)), "<=": lambda: bo(va.sle(vb)), ">=": lambda: bo(vb.sle(va)), "==": lambda: bo(va.eq(vb)), "!=": lambda: bo(va.ne(vb)), "&": lambda: va & vb, "^": lambda: va ^ vb, "|": lambda: va | vb}[op]()
    return (None, v, e)
def tern(c, a, b):
    z = const(0, 1); g = lambda e: z if e[2] is None else e[2]; nz = c[1].ne(0)
    return (None, nz.ite(a[1], b[1]), g(c) | nz.ite(g(a), g(b)))
def combine(o1, o2, l, shape):
    a, b, c = l
    if shape == 1: t = flat("(", a[0], o1, b[0], ")", o2, c[0]); r = bin_(o2, bin_(o1, a, b), c)
    elif shape == 2: t = flat(a[0], o1, "(", b[0], o2, c[0], ")"); r = bin_(o1, a, bin_(o2, b, c))
    else:
        t = flat(a[0], o1, b[0], o2, c[0])
        r = bin_(o2, bin_(o1, a, b), c) if PREC[o1] <= PREC[o2] else bin_(o1, a, bin_(o2, b, c))
    return (t, r[1], r[2], 13)
def pairs(a):
    res = Result()
    for b in OPS: merge(res, pair(a, b))
    return res
def terns(res_shape):
    res = Result()
    def T(f):
        def top(x):
            l = [(t, v, None, 0) for t, v in [x.num("d1") for _ in range(5)]]
            return f(l)
        one(res, random.Random(1), "if", 0, top)
    for op in OPS:
        T(lambda l: (flat(l[0][0], op, l[1][0], "?", l[2][0], ":", l[3][0]), *tern(bin_(op, l[0], l[1]), l[2], l[3])[1:], 13))
        T(lambda l: (flat(l[0][0], "?", l[1][0], op, l[2][0], ":", l[3][0]), *tern(l[0], bin_(op, l[1], l[2]), l[3])[1:], 13))
        T(lambda l: (flat(l[0][0], "?", l[1][0], ":", l[2][0], op, l[3][0]), *tern(l[0], l[1], bin_(op, l[2], l[3]))[1:], 13))
        T(lambda l: (flat("!", l[0][0], op, "!", l[1][0]), *bin_(op, (None, l[0][1].eq(0).zx(W), None), (None, l[1][1].eq(0).zx(W), None))[1:], 13))
    T(lambda l: (flat(l[0][0], "?", l[1][0], ":", l[2][0], "?", l[3][0], ":", l[4][0]), *tern(l[0], l[1], tern(l[2], l[3], l[4]))[1:], 13))
    T(lambda l: (flat(l[0][0], "?", l[1][0], "?", l[2][0], ":", l[3][0], ":", l[4][0]), *tern(l[0], tern(l[1], l[2], l[3]), l[4])[1:], 13))
    return res
def rnds(seed, n, depth):
    res = Result(); r = random.Random(seed)
    for _ in range(n): one(res, r, r.choice(list(FORMS)), r.choice(depth))
    return res
# expressions that are not C (value None), or that use operators outside the supported set (value or rejected)
MALF = [(x, None) for x in ("1 2", "(1", "1)", "1 &&", "1 ||", "|| 1", "", "1 = 2", "1 ? 2", "1 : 2", "()", "1 + ", "* 1", "!", "1 !", "2 ! 1", "1 == ", "== 1", "(1 2)", "defined", "defined(", "defined(NA", "defined 1", "defined()", "1 < > 2", "08", "0xg", "1a", "1 ; 2", "\"a\"", "1 @ 2", "[1]", "1 ? 2 : ", "1 ? : 2", "0 && ", "1 || (", "NA NB", "1 defined NA", "0 && 1 2", "{1}", "1 # 2", "09", "0x1L2", "1 += 2", "1 -> 2", "1.")] \
     + [(x, v) for x, v in (("-1", 1), ("~0", 1), ("+0", 0), ("1 << 1", 1), ("1 >> 1", 0), ("'a'", 1), ("1U", 1), ("0u", 0), ("-1 < 0", 1), ("~0 == 0", 0), ("- 1 + 1", 0), ("1 - -1", 1), ("3 & ~ 1", 1), ("1 ? 0 : 1", 0), ("0xAL", 1), ("'\\0'", 0), ("1LL", 1), ("4 >> 2 << 1", 1), ("!-1", 0))]
def malf(form):
    res = Result(); s = B("m"); pc = PC(); pc.assume(s.ult(len(MALF))); src = flat("#define NA 3\n#define NB 0\n", *[pad(s, [m[0].encode() for m in MALF]) if x is None else x for x in FORMS[form]]); res.sample({"form": form, "malformed": len(MALF)})
    for p in run(src, pc):
        res.count("paths")
        if p.st not in ("EXIT", "ABORT", "ASSERT"): report(res, "malformed", "ends with %s %s" % (p.st, p.msg), src, p.pc.model()); continue
        for i in [i for i in range(len(MALF)) if p.pc.check(s.eq(i)) is not None]:
            res.count("expressions"); x, v = MALF[i]
            if rejected(p): continue
            out = re.sub(r"\s", "", show(p.file("p.o"))); m = p.pc.check(s.eq(i)); neg = form == "noelse"
            if v is None: report(res, x, "the malformed expression '%s' is accepted" % x, src, m)
            elif out != ("Y" if v else "N") and not neg or neg and out != ("N" if v else "Y"): report(res, x, "group %s is chosen for '%s'" % (out, x), src, m)
    return res
if __name__ == "__main__":
    C = Check("P01", "translation_validation", "scpp's main executed symbolically (LLVM IR) on #if/#elif lines with symbolic digits and names, the chosen group compared with the C value of the expression as an SMT term", [
        "digits of integer constants and the names tested by defined: all values; expression shapes: all pairs of binary operators in all groupings, the rest random (seeded)", "32-bit int of the host build; the DOS build is covered by D01",
        "constants with suffixes other than L, character constants and unary + - ~ << >> are rejected by scpp and not generated"])
    mod(); sx.native("scpp"); n = 60 if C.thorough else 12
    for f in ("if", "elif", "elif2", "comment"): C.job("malformed:" + f, malf, f)
    C.bounds = {"operators_per_expression": 7, "random_expressions": 40 * n, "operator_pairs": len(OPS) ** 2}
    for a in OPS:
        C.job("pair%s" % a, pairs, a)
    C.job("ternary", terns, 0)
    for i in range(n): C.job("rnd%d" % i, rnds, C.seed * 1000 + i, 40, [1, 2, 2, 3] if i % 4 else [3, 4])
    sys.exit(C.run(need=["expressions", "paths"]))
