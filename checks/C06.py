"""C06: literals and constants in code compiled by scc. The characters of the literals are symbolic; scc itself is executed symbolically and the bytes it
emits (data directly, code by running it on the 8086 model) are compared with the value C prescribes."""
from cclit import *
from pplib import flat, B, differs, forks, rejected
HEX = [(48, 57), (65, 70), (97, 102)]
inset = sx.inset
class T:
    def __init__(self): self.pc = PC(); self.n = 0
    def v(self, *alts): b = B("s%d" % self.n); self.n += 1; self.pc.assume(inset(b, list(alts))); return b
    def dec(self, n, lim):
        ds = [self.v((49, 57) if n > 1 else (48, 57))] + [self.v((48, 57)) for _ in range(n - 1)]; val = const(0, 32)
        for d in ds: val = val * const(10, 32) + d.zx(32) - const(48, 32)
        if n > 4: self.pc.assume(val.ule(lim))
        return ds, val
    def hex(self, n):
        ds = []; val = const(0, 32)
        for i in range(n):
            d = self.v(*HEX); ds.append(d); z = d.zx(32)
            val = (val << const(4, 32)) | (d.ule(57)).ite(z - const(48, 32), (d.ule(70)).ite(z - const(55, 32), z - const(87, 32)))
        return flat("0", self.v(120, 88), ds), val
    def oct(self, n):
        ds = [self.v((48, 55)) for _ in range(n)]; val = const(0, 32)
        for d in ds: val = (val << const(3, 32)) | (d.zx(32) - const(48, 32))
        if n > 5: self.pc.assume(ds[0].ule(49)) if n == 6 else None
        return flat("0", ds), val
def num(t, kind):
    k, n = kind[0], int(kind[1:])
    return t.dec(n, 32767) if k == "d" else t.dec(n, 65535) if k == "u" else t.hex(n) if k == "x" else t.oct(n)
# one character inside a literal: (source text, value as 8-bit term)
def char(t, kind, quote):
    if kind == "plain": b = t.v(*([(1, 9), (11, 33), (35, 91), (93, 255)] if quote == '"' else [(1, 9), (11, 38), (40, 91), (93, 255)])); return [b], b
    if kind == "simple":
        b = t.v(*[ord(c) for c in "nrt'\"\\"]); return flat("\\", b), b.eq(110).ite(const(10, 8), b.eq(114).ite(const(13, 8), b.eq(116).ite(const(9, 8), b)))
    if kind[0] == "o":
        n = int(kind[1]); ds = [t.v((48, 51) if n == 3 and i == 0 else (48, 55)) for i in range(n)]; v = const(0, 8)
        for d in ds: v = (v << const(3, 8)) | (d - const(48, 8))
        return flat("\\", ds), v
    if kind[0] == "h":
        n = int(kind[1]); x, v = t.hex(n); return flat("\\x", x[2:]), v.ex(0, 8)
CH = ["plain", "simple", "o1", "o2", "o3", "h1", "h2"]
def data(res, t, src, what, checks):
    """checks(com, map) -> [(name, bytes, expected bytes)]"""
    res.count("programs"); res.sample(what); ok = 0
    for p, com, m in symcompile(res, src, t.pc):
        if com is None: bad(res, src, p, what, "is rejected (%s %s)" % (p.st, p.code), p.pc.model()); return
        for n, a, e in checks(com, m):
            mdl = differs(p.pc, a, e); res.count("compared")
            if mdl is not None: bad(res, src, p, what, "%s is %s instead of %s" % (n, ev(a, mdl), ev(e, mdl)), mdl); return
        ok += 1
def ev(bs, m): return bytes((b if isinstance(b, int) else b.eval(m)) & 255 for b in bs).hex()[:60]
def bad(res, src, p, what, why, mdl):
    text = concrete(src, mdl); r = sx.run_native("scc", ["p.c"], {"p.c": text}); res.count("disagreements")
    res.add(viol(re.sub(r"\d+", "#", what), "%s: %s" % (what, why), "source %r\n%s\nthe natively built scc exits with %s, prints %r, program %s" % (text, why, r.rc, r.out[-200:], (r.files.get("p.com") or b"").hex()[:400]), {"p.c": text}))
def at(com, m, n, k): o = m[n] - 0x100; return com[o:o + k]
def wo(v): return [v.ex(0, 8), v.ex(8, 8)]
S = "\nvoid _start(void){}\n"
def numeric(kind, ctx):
    res = Result(); t = T(); x, v = num(t, kind); what = "%s literal %s" % (ctx, kind); k = v.ex(0, 16); a = var("a0", 16)
    if ctx in ("init", "neg"):
        src = flat("int before = 7; int g = %s" % ("-" if ctx == "neg" else ""), x, "; int after = 9;", S); e = (const(0, 32) - v) if ctx == "neg" else v
        data(res, t, src, what, lambda com, m: [("g", at(com, m, "g", 2), wo(e)), ("neighbours", at(com, m, "before", 2) + at(com, m, "after", 2), [7, 0, 9, 0])]); return res
    if ctx in ("dim", "dimw", "dim2"):
        t.pc.assume(v.ult(9000) & ~v.eq(0)); d = {"dim": ("char g[", "]", 1), "dimw": ("int g[", "]", 2), "dim2": ("char g[3][", "]", 3)}[ctx]; src = flat("int u; ", d[0], x, d[1], "; int z;\nint f(int a) { return sizeof(g); }", S)
        def run(p, com, m): return k * const(d[2], 16)
    elif ctx == "ret": src = flat("int f(int a) { return ", x, "; }", S); run = lambda p, com, m: k
    elif ctx == "expr": src = flat("int f(int a) { return ", x, " - a; }", S); run = lambda p, com, m: k - a
    elif ctx == "case": src = flat("int f(int a) { switch (a) { case ", x, ": return 1; } return 0; }", S); run = lambda p, com, m: a.eq(k).zx(16)
    elif ctx == "casen": src = flat("int f(int a) { switch (a) { case 5-", x, ": return 1; default: return 2; } return 0; }", S); run = lambda p, com, m: a.eq(const(5, 16) - k).ite(const(1, 16), const(2, 16))
    elif ctx == "enum": src = flat("enum { A, B = ", x, ", C, D = B + 3 - C, E };\nint f(int a) { return (a & 1) ? C : E; }", S); t.pc.assume(~k.eq(0x7fff)); run = lambda p, com, m: a.ex(0, 1).eq(1).ite(k + const(1, 16), const(3, 16))
    elif ctx == "enumn": src = flat("enum { A = -", x, ", B, C, D = C, E };\nint f(int a) { return (a & 1) ? (a & 2) ? A : B : (a & 2) ? C : E; }", S); t.pc.assume(v.ule(0x7ff0)); a0, a1 = a.ex(0, 1).eq(1), a.ex(1, 1).eq(1); run = lambda p, com, m: a0.ite(a1.ite(const(0, 16), const(1, 16)), a1.ite(const(2, 16), const(3, 16))) - k
    elif ctx == "enumd": src = flat("int f(int a) { enum { A = ", x, " - 3, B, C, D, E }; switch (a) { case B: return 1; case D: return D; case E: return 7; } return sizeof(char[0x10]); }".replace("sizeof(char[0x10])", "16"), S); t.pc.assume(v.ule(0x7ff0)); run = lambda p, com, m: a.eq(k - const(2, 16)).ite(const(1, 16), a.eq(k).ite(k, a.eq(k + const(1, 16)).ite(const(7, 16), const(16, 16))))
    elif ctx in ("member", "union", "dim3", "dims", "nest"):
        t.pc.assume(v.ult(2000) & ~v.eq(0))
        src, r = {"member": ("struct Q { char a[%s]; int b; char c; } g; int f(int a) { if (a == 1) return sizeof(struct Q); if (a == 2) return (char*)&g.c - (char*)&g; return (char*)&g.b - g.a; }", (k + const(3, 16), k + const(2, 16), k)), "union": ("union Q { char a[%s]; int b; char c[3]; } g; int f(int a) { if (a == 1) return sizeof(union Q); if (a == 2) return (char*)&g.c - (char*)&g; return g.c - g.a; }", (v.ult(3).ite(const(3, 16), k), const(0, 16), const(0, 16))),
            "dim3": ("char g[%s][3][2]; int f(int a) { if (a == 1) return sizeof(g); if (a == 2) return sizeof(g[0]); return sizeof(g[0][0]); }", (k * const(6, 16), const(6, 16), const(2, 16))), "dims": ("int g[2][%s][3]; int f(int a) { if (a == 1) return sizeof(g); if (a == 2) return sizeof(g[0]); return sizeof(g[0][0]); }", (k * const(12, 16), k * const(6, 16), const(6, 16))),
            "nest": ("struct R { int x; char y[%s]; }; struct Q { struct R r[2]; int b; } g; int f(int a) { if (a == 1) return sizeof(g); if (a == 2) return sizeof(g.r[1].y); return (char*)&g.b - (char*)&g; }", (k * const(2, 16) + const(6, 16), k, k * const(2, 16) + const(4, 16)))}[ctx]
        i = src.index("%s"); src = flat(src[:i], x, src[i + 2:], S); run = lambda p, com, m: a.eq(1).ite(r[0], a.eq(2).ite(r[1], r[2]))
    elif ctx == "cmp": src = flat("int f(int a) { if (a == ", x, ") return 3; return 4; }", S); run = lambda p, com, m: a.eq(k).ite(const(3, 16), const(4, 16))
    elif ctx == "store": src = flat("int g; int f(int a) { g = ", x, "; return g; }", S); run = lambda p, com, m: k
    elif ctx == "idx": t.pc.assume(v.ult(2000)); src = flat("int g; char p[2]; int f(int a) { return &p[", x, "] - p; }", S); run = lambda p, com, m: k
    elif ctx == "uns": src = flat("int f(int a) { unsigned u; u = ", x, "; return u > a; }", S); run = lambda p, com, m: None
    code(res, t, src, what, [a], run); return res
def code(res, t, src, what, args, run):
    res.count("programs"); res.sample(what)
    for p, com, m in symcompile(res, src, t.pc):
        if com is None: bad(res, src, p, what, "is rejected (%s %s)" % (p.st, p.code), p.pc.model()); return
        if "_EBSS" not in m: m.pop("_SBSS", None) # its digits are symbolic; f doesn't use the objects
        run_emitted(res, src, p, com, m, "f", args, run(p, com, m), what); res.count("compared")
        if res.viols: return
OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x.udiv(y), "%": lambda x, y: x.urem(y), "&": lambda x, y: x & y, "^": lambda x, y: x ^ y, "|": lambda x, y: x | y, "<<": lambda x, y: x << y, ">>": lambda x, y: x >> y}
def fold(op, kx, ky, ctx):
    """constant expression of two literals, in places that need a constant"""
    res = Result(); t = T(); x, v = num(t, kx); y, w = num(t, ky); what = "%s %s %s in %s" % (kx, op, ky, ctx); a = var("a0", 16)
    if op in "/%": t.pc.assume(~w.eq(0))
    if op in ("<<", ">>"): t.pc.assume(w.ule(14))
    r = OPS[op](v, w); k = r.ex(0, 16)
    if op != "-": t.pc.assume(r.ule(0x7fff))
    if ctx == "init": src = flat("int before = 7; int g = ", x, " %s " % op, y, "; int after = 9;", S); data(res, t, src, what, lambda com, m: [("g", at(com, m, "g", 2), wo(r)), ("neighbours", at(com, m, "before", 2) + at(com, m, "after", 2), [7, 0, 9, 0])]); return res
    if ctx == "dim": t.pc.assume(r.ule(9000) & ~r.eq(0)); code(res, t, flat("char g[", x, op, y, "]; int f(int a) { return sizeof(g); }", S), what, [a], lambda p, com, m: k); return res
    if ctx == "case": code(res, t, flat("int f(int a) { switch (a) { case ", x, op, y, ": return 1; } return 0; }", S), what, [a], lambda p, com, m: a.eq(k).zx(16)); return res
    if ctx == "enum": code(res, t, flat("enum { A = ", x, op, y, " }; int f(int a) { return A; }", S), what, [a], lambda p, com, m: k); return res
    code(res, t, flat("int f(int a) { return ", x, op, y, "; }", S), what, [a], lambda p, com, m: k); return res
def charlit(kind, ctx):
    res = Result(); t = T(); c, v = char(t, kind, "'"); what = "character literal %s in %s" % (kind, ctx); k = v.sx(16); a = var("a0", 16); x = flat("'", c, "'")
    if ctx == "init": src = flat("int g = ", x, "; int after = 9;", S); data(res, t, src, what, lambda com, m: [("g", at(com, m, "g", 2), wo(k)), ("after", at(com, m, "after", 2), [9, 0])]); return res
    src, e = {"ret": (flat("int f(int a) { return ", x, "; }", S), k), "case": (flat("int f(int a) { switch (a) { case ", x, ": return 1; } return 0; }", S), a.eq(k).zx(16)),
        "sum": (flat("int f(int a) { return a + ", x, "; }", S), a + k), "cmpc": (flat("int f(int a) { char c; c = a; return c == ", x, "; }", S), a.ex(0, 8).eq(v).zx(16)), "cmp": (flat("int f(int a) { return a < ", x, "; }", S), a.slt(k).zx(16))}[ctx]
    code(res, t, src, what, [a], lambda p, com, m: e); return res
def string(kinds, ctx, brk=()):
    """a string of the given kinds of characters, cut into adjacent literals at the positions brk"""
    res = Result(); t = T(); src = flat('"'); val = []; prev = None
    for i, kd in enumerate(kinds):
        if i in brk: src += flat('" \t\n /*"*/ "' if i & 1 else '""')
        if isinstance(kd, str) and kd in CH:
            c, v = char(t, kd, '"')
            # a plain character after a shorter escape must not continue it
            if kd == "plain" and prev in ("o1", "o2") and i not in brk: t.pc.assume(~inset(c[0], [(48, 55)]))
            if kd == "plain" and prev == "h1" and i not in brk: t.pc.assume(~inset(c[0], HEX))
            src += c; val.append(v)
        else: src += flat(kd); val += flat(kd); kd = "plain"
        prev = kd
    src += flat('"'); what = "string %s in %s" % ("".join(k[:2] for k in kinds), ctx); n = len(val)
    if ctx == "init": full = flat("char g[] = ", src, "; int after = 9; int f(int a) { return sizeof(g); }", S); data(res, t, full, what, lambda com, m: [("g", at(com, m, "g", n + 1), val + [0]), ("after", at(com, m, "after", 2), [9, 0])])
    if ctx == "size": full = flat("char g[] = ", src, "; int f(int a) { return sizeof(g); }", S); code(res, t, full, what, [var("a0", 16)], lambda p, com, m: const(n + 1, 16))
    if ctx == "ret" or ctx == "twice" or ctx == "arg":
        full = {"ret": flat("char* f(int a) { return ", src, "; }", S), "twice": flat('char* f(int a) { char* p; char* q; p = "first"; q = ', src, '; return a ? q : q; }', S), "arg": flat("char* id(char* p, int n) { return p; }\nchar* f(int a) { return id(", src, ", 3); }", S)}[ctx]
        res.count("programs"); res.sample(what)
        for p, com, m in symcompile(res, full, t.pc):
            if com is None: bad(res, full, p, what, "is rejected", p.pc.model()); return res
            f = Fn("f", what, "int", ["int"]); j, xs = x86fn(list(com), m, f, [var("a0", 16)], {}, p.pc.clone(), 600, 40, 20000)
            for x in xs:
                res.count("path_pairs"); r = x.reg(0).val
                if x.st != "STOP" or r is None: bad(res, full, p, what, "running it ends with %s %s" % (x.st, x.msg), x.pc.model()); return res
                o = r - 0x100; mdl = differs(x.pc, com[o:o + n + 1], val + [0]); res.count("compared")
                if mdl is not None: bad(res, full, p, what, "the bytes at its address are %s instead of %s" % (ev(com[o:o + n + 1], mdl), ev(val + [0], mdl)), mdl); return res
    if ctx == "index":
        res.count("programs"); full = flat("int f(int a) { return ", src, "[a]; }", S); a = var("a0", 16); t.pc.assume(a.ule(n)); e = const(0, 16)
        for i in range(n): e = a.eq(i).ite(sx.bits(val[i], 8).sx(16), e)
        code(res, t, full, what, [a], lambda p, com, m: e)
    return res
if __name__ == "__main__":
    C = Check("C06", "translation_validation", "scc's main executed symbolically (LLVM IR) on programs whose literals are made of symbolic characters; the symbolic bytes it emits are compared with the C value by the solver, code is run on the 8086 model first", [
        "numbers of 1 to 5 decimal, 1 to 4 hexadecimal and 1 to 6 octal digits that fit 16 bits", "characters: every byte except quote, backslash, newline and NUL, the escapes scc supports (n r t quotes backslash, octal, hexadecimal)", "one symbolic literal per program; the host build of scc"])
    mod = sccmod(); sx.native("scc"); TH = C.thorough
    for ctx in ("init", "neg", "ret", "expr", "case", "casen", "enum", "cmp", "store", "dim", "dimw", "dim2", "idx", "enumn", "enumd", "member", "union", "dim3", "dims", "nest"):
        for kd in ("d1", "d2", "d3", "d5", "x1", "x2", "x4", "o1", "o3", "o5", "o6") + (("d4", "x3", "o2", "o4") if TH else ()):
            if ctx in ("dim", "dimw", "dim2", "idx", "member", "union", "dim3", "dims", "nest") and kd in ("d5", "o6", "o5", "x1") and not TH: continue
            C.job("num:%s.%s" % (ctx, kd), numeric, kd, ctx)
    for ctx in ("init", "ret", "case", "sum", "cmpc", "cmp"):
        for kd in CH: C.job("char:%s.%s" % (ctx, kd), charlit, kd, ctx)
    for op in OPS:
        for ctx in ("init", "ret", "dim", "case", "enum"):
            for kx, ky in (("d2", "d1"), ("x2", "o2"), ("d3", "x1")) + ((("x4", "d2"), ("d5", "d3")) if TH else ()): C.job("fold:%s.%s.%s%s" % (ctx, op, kx, ky), fold, op, kx, ky, ctx)
    ST = [["plain"], ["simple"], ["o1"], ["o2"], ["o3"], ["h1"], ["h2"], [], ["plain", "plain"], ["plain", "simple", "plain"], ["o1", "plain"], ["o2", "plain"], ["o3", "plain"], ["h1", "plain"], ["h2", "plain"], ["plain", "o1", "h2"], ["simple", "simple"], ["h2", "o3", "simple"]] + ([["abcdefgh" * 8, "plain"], ["x" * 300, "simple", "y"]])
    for ctx in ("init", "size", "ret", "twice", "arg", "index"):
        for i, st in enumerate(ST):
            if ctx in ("size", "index") and i > 15: continue
            if ctx == "index" and len(st) == 0: continue
            C.job("str:%s.%d" % (ctx, i), string, st, ctx)
            if len(st) > 1 and i < 18: C.job("cat:%s.%d" % (ctx, i), string, st, ctx, (1,)); C.job("cat2:%s.%d" % (ctx, i), string, st, ctx, tuple(range(1, len(st))) + (0,))
    C.bounds = {"decimal_digits": 5, "hexadecimal_digits": 4, "octal_digits": 6, "string_characters": 3}
    sys.exit(C.run(need=["programs", "compared", "compiler_paths", "path_pairs"]))
