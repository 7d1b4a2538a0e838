"""A03: data, literals, constant expressions and directives of sas. Literals have symbolic digits, characters and operators; the output bytes
are compared with the written values by the solver."""
from asmlib import *
HEX = [(48, 57), (65, 70), (97, 102)]
class T:
    """source text under construction: parts with symbolic bytes, the path condition on them"""
    def __init__(self): self.pc = PC(); self.n = 0
    def v(self, *alts): b = B("s%d" % self.n); self.n += 1; self.pc.assume(inset(b, list(alts))); return b
    def dec(self, n=5, top=65535):
        ds = [self.v((48, 57)) for _ in range(n)]; val = const(0, 32)
        for d in ds: val = val * const(10, 32) + d.zx(32) - const(48, 32)
        if top is not None: self.pc.assume(val.ule(top))
        return ds, val
    def hex(self, n, split=True):
        ds = []; val = const(0, 32)
        for i in range(n):
            d = self.v(*HEX); ds.append(d); z = d.zx(32)
            val = (val << const(4, 32)) | (d.ule(57)).ite(z - const(48, 32), (d.ule(70)).ite(z - const(55, 32), z - const(87, 32)))
        return flat("0", self.v(120, 88), ds), val
    def chars(self, n): return [self.v((1, 38), (40, 255)) for _ in range(n)]
    def sel(self, alts): b = B("o%d" % self.n); self.n += 1; self.pc.assume(b.ult(len(alts))); return b, pad(b, [a.encode() for a in alts])
def run_case(name, build):
    """build(t) -> (source, expect): expect(f) gives the bytes, or None when the source has to be rejected, or "any" """
    res = Result(); t = T(); src, expect = build(t); res.sample({"source": show(src)[:200]}); res.count("sources")
    for p in sasrun(src, t.pc):
        res.count("paths")
        if not (okpath(p) or rejected(p)): areport(res, name, "ends with %s %s" % (p.st, p.msg), src, p.pc.model()); continue
        def judge(f):
            e = expect(f)
            if isinstance(e, str): return None
            if rejected(p): return ("rejected", None) if e is not None else None
            if e is None: return "accepted", None
            o = p.file("p.com"); m = differs(f.pc, o, e)
            if m is not None: return "output %s instead of %s" % (eval_(o, m), eval_(e, m)), m
        for q, r in forks(p.pc, judge):
            res.count("accepted" if okpath(p) else "rejected"); res.count("programs")
            if r: areport(res, name, r[0], src, r[1] or q.model())
        if len(res.viols) > 2: break
    return res
def eval_(bs, m): return bytes((b if isinstance(b, int) else b.eval(m)) & 255 for b in bs).hex()[:80]
def by(v): return [v.ex(0, 8)]
def wo(v): return [v.ex(0, 8), v.ex(8, 8)]
def cv(b): return bits(b, 8).zx(32)
# ---- literals
def lit(size, kind, ctx):
    def build(t):
        if kind == "dec5": x, v = t.dec(5, 65535 if size == 2 else 255)
        elif kind == "dec3": x, v = t.dec(3, 999 if size == 2 else 255)
        elif kind == "dec1": x, v = t.dec(1)
        elif kind == "hex": x, v = t.hex(4 if size == 2 else 2)
        elif kind == "hex1": x, v = t.hex(1)
        elif kind == "hexl": x, v = t.hex(3); x = x[:2] + flat("0") + x[2:]; t.pc.assume(v.ule(65535 if size == 2 else 255))
        elif kind == "chr": c = t.chars(1); x = flat("'", c, "'"); v = cv(c[0])
        elif kind == "chr2": c = t.chars(2); x = flat("'", c, "'"); v = cv(c[0]) | (cv(c[1]) << const(8, 32))
        e = by(v) if size == 1 else wo(v); D = "db" if size == 1 else "dw"
        if kind == "chr2" and size == 1 and ctx != "equ": e = [bits(c[0], 8), bits(c[1], 8)] if ctx != "imm" else by(v)
        if ctx == "data": return flat(" %s " % D, x, "\n"), lambda f: e
        if ctx == "list": return flat(" %s 7, " % D, x, ",", x, " ;c\n%s 9" % D), lambda f: [7] + [0] * (size - 1) + e + e + [9] + [0] * (size - 1)
        if ctx == "equ": return flat("N equ ", x, "\n%s N,N\n" % D), lambda f: e + e
        if ctx == "imm": return flat("mov %s, " % ("bl" if size == 1 else "bx"), x, "\n"), lambda f: [0xB3 if size == 1 else 0xBB] + e
        if ctx == "org": return flat("org ", x, "\nX: dw X"), lambda f: wo(v)
    return build
def strs(size, lens, free):
    """strings of several lengths, the first characters of each free"""
    def build(t):
        src = flat("dw " if size == 2 else "db "); e = []
        for i, n in enumerate(lens):
            if i: src += flat(", ")
            if n < 0: src += flat(str(-n)); e += [-n & 255] + ([-n >> 8] if size == 2 else []); continue
            c = t.chars(min(n, free)) + [ord("a") + j % 26 for j in range(max(0, n - free))]
            src += flat("'", c, "'"); e += c + ([0] if size == 2 and n & 1 else [])
        return src + flat("\n db 1"), lambda f: e + [1]
    return build
OPS = ["+", "-", "|", "<<"]
def evl(toks, shift):
    """value of a list of operands and operators: | below << below + -, from the left"""
    def lvl(ts, ops):
        if not ops: return ts[0]
        for group in (("|",), ("<<",), ("+", "-")):
            idx = [i for i, o in enumerate(ops) if o in group]
            if idx:
                i = idx[-1]; l = lvl(ts[:i + 1], ops[:i]); r = lvl(ts[i + 1:], ops[i + 1:]); o = ops[i]
                if o == "<<": shift(r)
                return l + r if o == "+" else l - r if o == "-" else l | r if o == "|" else l << r
    return lvl(toks[0::2], toks[1::2])
def expr(un, ctx, k):
    """k operands with symbolic values joined by symbolic operators"""
    def build(t):
        vals = []; sels = []; src = []
        for i in range(k):
            if i: s, x = t.sel(OPS); sels.append(s); src += [32] + x + [32]
            u = un[i] if i < len(un) else ""
            if i == 0 and k < 4: x, v = t.dec(4 if k < 3 else 2)
            elif i == k - 1: x, v = t.hex(1)
            else: x, v = t.dec(1)
            for c in reversed(u): v = const(0, 32) - v if c == "-" else ~v if c == "~" else v
            src += flat(u, x); vals.append(v)
        def expect(f):
            ops = [OPS[choose(f, s, 4)] for s in sels]; tk = [vals[0]]
            for o, v, u in zip(ops, vals[1:], list(un[1:]) + [""] * k): tk += [o, v]
            class Any(Exception): pass
            def shift(r): # counts have to be 0..15
                if not f.dec(r.ule(15)): raise Any
            try: r = evl(tk, shift)
            except Any: return "any"
            if ctx == "equ": return wo(r)
            if ctx == "mov": return [0xB9] + wo(r)
            if ctx == "add": return ([0x81, 0xC1] + wo(r)) if not f.dec((r.ex(0, 8).sx(16)).eq(r.ex(0, 16))) else [0x83, 0xC1] + by(r)
            if ctx == "org": return "any" if f.dec(r.eq(0xffffffff)) else wo(r)
            if ctx == "al": return [0xB0] + by(r)
        return {"equ": flat("V equ ", src, "\ndw V"), "mov": flat("mov cx,", src, "\n"), "add": flat("add cx,", src), "org": flat("org ", src, "\nL:dw L"), "al": flat("mov al,", src)}[ctx], expect
    return build
def res_(op, k):
    def build(t):
        x, v = t.dec(k, 60000 // (2 if op == "resw" else 1)); y, w = t.dec(1) if k < 3 else (flat("7"), const(7, 32)); o, ov = t.dec(4) if k < 3 else (flat("256"), const(256, 32))
        n = v * const(2 if op == "resw" else 1, 32); m = w * const(1, 32)
        return flat("org ", o, "\nmov ax, A\nmov bx,B\nmov cx,C\n A: ", op, " ", x, "\nB: resb ", y, "\nC:"), lambda f: [0xB8] + wo(ov + const(9, 32)) + [0xBB] + wo(ov + const(9, 32) + n) + [0xB9] + wo(ov + const(9, 32) + n + m)
    return build
def order(k):
    """data directives in symbolic order, layout bytes between them symbolic"""
    opts = [("db 1", b"\1"), ("dw 2,3", b"\2\0\3\0"), ("DB 'a;b',4", b"a;b\4"), ("Dw 'abc'", b"abc\0"), ("dw 0XfFfe", b"\xfe\xff"), ("cpu 8086", b""), ("db 0", b"\0"), ("dw 'a','bc',5", b"a\0bc\5\0"), ("db 65535", b"\xff"), ("db '',9", b"\t"), ("db 00012 , 0", b"\x0c\0"), ("dw 65535;,7", b"\xff\xff")]
    def build(t):
        src = []; ss = []
        for i in range(k): s, x = t.sel([o[0] for o in opts]); ss.append(s); src += x + [t.v(10, 13, 32, 9), t.v(10, 13)] + ([] if i else flat("; 'c\n")) + [10]
        return src, lambda f: list(b"".join(opts[choose(f, s, len(opts))][1] for s in ss))
    return build
BADS = ["db 1 2", "dw 1,", "db ,1", "db 'abc", "dw 1+", "db undefined", "N equ", "N equ 1\nN equ 2", "db 1;\ndw", "cpu 186", "cpu", "org", "resb", "resw 'abc'", "db 1\n1", "'a'", "db (1)", "mov ax, 1*2", "mov ax, 1 2", "mov ax, 1<2", "mov ax, +", "mov ax, 'abc'", "mov ax, ''", "dw #", "db \"a\"", "org 5 6", "resb 2\ndb 1", "M equ 5\nM: db 1", "db", "x", "db 1:", ": db 1", "db 0x1g", "dw 12ab", "db 1 ; 'ok'\n?", "equ 5", "mov ax, 1 << ", "mov ax, ~", "mov ax, 5 |", "foo bar", "mov ax bx", "mov ax,,bx", "@ db 1", "cpu 80860"]
def bads():
    def build(t):
        s, x = t.sel(BADS); w = t.v(10, 13, 32); return x + [w, 10], lambda f: None
    return build
if __name__ == "__main__":
    C = Check("A03", "other", "sas's main executed symbolically (LLVM IR) on data, equ, org, resb/resw and constant expressions with symbolic digits, characters, operators and order; the output bytes are compared with the written values by the solver", [
        "numbers up to 65535, shift counts 0..15", "expressions of up to 4 operands; data items are plain literals, strings and names", "a byte operand is given a value that fits it (otherwise its low byte is expected)", "the host build"])
    mod("sas"); sx.native("sas"); TH = C.thorough
    def J(n, b): C.job(n, run_case, n, b)
    for size in (1, 2):
        for kind in ("dec5", "dec3", "dec1", "hex", "hex1", "hexl", "chr", "chr2"):
            for ctx in ("data", "list", "equ", "imm"):
                if kind in ("chr", "chr2") and (ctx in ("data", "list") and size == 2): continue
                J("lit:%d.%s.%s" % (size, kind, ctx), lit(size, kind, ctx))
    for kind in ("dec5", "hex", "chr2"): J("lit:org." + kind, lit(2, kind, "org"))
    for size in (1, 2):
        for ls in ([1], [2], [3], [0], [5, 1], [1, 1, 2], [2, -9, 1], [1, -300, 3, 1], [3, 3], [0, 1], [7, -1], [20, 1], [127], [126, 1], [100, 27, 3]): J("str:%d.%s" % (size, ls), strs(size, ls, 3 if TH else 2))
    for ctx in ("equ", "mov", "add", "org", "al"):
        for un in ([], ["-"], ["~", "-"], ["-~", ""], ["+", "~"], ["--", "+-"]):
            for k in (1, 2) + ((3,) if TH or ctx in ("mov", "equ") else ()) + ((4,) if TH and ctx in ("mov", "equ") else ()): J("expr:%s.%s.%d" % (ctx, "_".join(un), k), expr(un, ctx, k)) if k >= len(un) else None
    for op in ("resb", "resw"):
        for k in (1, 3, 4): J("res:%s.%d" % (op, k), res_(op, k))
    J("order", order(3 if TH else 2)); J("bad", bads())
    C.bounds = {"operands": 4, "string_length": 127, "numbers": "0..65535"}
    sys.exit(C.run(need=["programs", "accepted", "rejected"]))
