"""A01: sas's instruction encodings. One statement with symbolic operands per job; the output is decoded by an independent 8086 decoder."""
from asmlib import *
class Num:
    """five decimal digits"""
    def __init__(self, n, pc):
        self.d = [B("%s%d" % (n, i)) for i in range(5)]; v = const(0, 32)
        for x in self.d: pc.assume(inset(x, [(48, 57)])); v = v * const(10, 32) + (x.zx(32) - const(48, 32))
        pc.assume(v.ule(65535)); self.v = v.ex(0, 16)
ORG = 0x1234
def operands(kind, num):
    """name -> (text, operand or None when it is not a valid operand)"""
    out = {}
    def add(n, parts, op): out[n] = (flat(*parts), op)
    d, v = num.d, num.v; neg = c16(0) - v
    if "r" in kind:
        for r in R8 + R16: add(r, [r], ("r", r))
        for r in SR: add(r, [r], ("s", r))
    if "j" in kind: add("num", ["0"] + [d[1:]], ("i", 0, v - (d[0].zx(16) - const(48, 16)) * const(10000, 16))); add("fwd", ["fwd"], ("i", 0, "fwd")); add("-9", ["-9"], ("i", 0, c16(-9))); add("250", ["250"], ("i", 0, c16(250))); add("-200", ["-200"], ("i", 0, c16(-200)))
    if "i" in kind:
        add("num", [d], ("i", 0, v)); add("-num", ["-", d], ("i", 0, neg)); add("bck", ["bck"], ("i", 0, c16(ORG))); add("fwd", ["fwd"], ("i", 0, "fwd")); add("1", ["1"], ("i", 0, c16(1))); add("~num", ["~ ", d], ("i", 0, neg - c16(1))); add("equ", ["cst"], ("i", 0, c16(0x8180)))
    B_ = {"": (), "bx": ("bx",), "bp": ("bp",), "si": ("si",), "di": ("di",), "si+bx": ("si", "bx")}
    def mem(pre, seg, base, disp):
        sz = {"": 0, "byte": 1, "word": 2}[pre]; dv = {"": c16(0), "+num": v, "-num": neg, "+fwd": "fwd", "+bck": c16(ORG), "+num+fwd": ("fwd", v), "+bck-num": c16(ORG) - v, "-num+fwd": ("fwd", neg), "+cst": c16(0x8180), "-cst": c16(-0x8180)}[disp]
        if not base and disp in ("", "-num", "-num+fwd", "-cst"): return
        t = base; ds = re.findall(r"([+-])(num|fwd|bck|cst)", disp); parts = [pre + " " if pre else "", "[", seg + ":" if seg else "", base]
        for i, (s, w) in enumerate(ds): parts += [s if base or i else "", d if w == "num" else w]
        add(" ".join([pre, seg, base + disp]), parts + ["]"], ("m", sz, seg or None, B_[base], dv))
    DS = ["", "+num", "-num", "+fwd", "+bck", "+num+fwd", "+bck-num", "-num+fwd", "+cst", "-cst"]
    if "m" in kind: [mem("", "", b, x) for b in B_ for x in DS]; [mem(p, s, b, x) for p in ("byte", "word") for s, b, x in [("", "bx", ""), ("es", "bp", ""), ("", "", "+num"), ("", "bp", "+fwd"), ("", "si+bx", "-num")]]; [mem("", s, b, x) for s in SR for b, x in [("", "+num"), ("bx", ""), ("bp", ""), ("si+bx", "+num"), ("", "+fwd"), ("di", "+bck")]]
    if "M" in kind: [mem(p, "", b, x) for p in ("byte", "word", "") for b in B_ for x in ("", "+fwd", "+cst")]; [mem(p, "", b, x) for p, b, x in [("byte", "bp", "+num"), ("word", "", "+num"), ("word", "di", "+bck-num"), ("byte", "", "+bck-num")]]; [mem(p, s, "bp", "") for p in ("byte", "word") for s in SR]
    if "n" in kind: [mem(p, s, b, x) for p, s, b, x in [("", "", "bx", ""), ("byte", "", "bp", ""), ("word", "", "", "+fwd"), ("", "es", "di", "+num"), ("", "", "si+bx", "+cst"), ("", "", "bp", "+num")]]
    if "x" in kind:
        for n, t in [("-bx", "[si-bx]"), ("-fwd", "[bx-fwd]"), ("-bck", "[bx-bck]"), ("ax", "[ax]"), ("al", "[bx+al]"), ("es", "[es]"), ("bx+bx", "[bx+bx]"), ("si+di", "[si+di]"), ("empty", "[]"), ("open", "[bx"), ("byte reg", "byte bx"), ("dword", "dword [bx]"), ("2fwd", "[fwd+fwd]"), ("seg2", "es:[bx]"), ("cx", "[cx+5]"), ("sp", "[sp]"), ("bp+bx", "[bx+bp]")]: add(n, [t], None)
    return out
def size(o): return 1 if o[0] == "r" and o[1] in R8 else 2 if o[0] == "r" else o[1] if o[0] == "m" else 0
def fwd(o): return o[0] == "i" and isinstance(o[2], str) or o[0] == "m" and isinstance(o[4], (str, tuple))
def supported(op, a):
    """True: has to be assembled, False: has no encoding or isn't supported, None: nothing claimed"""
    k = "".join(o[0] for o in a)
    if op in ALU or op == "mov":
        if len(a) != 2: return False
        x, y = a
        if op == "mov" and "s" in k:
            if k == "rs" or k == "sr": g = x if k == "rs" else y; return size(g) == 2 and (None if y[0] == "r" and x[1] == "cs" else True)
            if k in ("sm", "ms"): m = x if k == "ms" else y; return False if m[1] == 1 else None if x == ("s", "cs") else True
            return False
        if k in ("rr", "rm", "mr"): return not (size(x) and size(y) and size(x) != size(y))
        if k == "ri": return not (fwd(y) and size(x) == 1)
        if k == "mi": return size(x) != 0 and not (fwd(y) and size(x) == 1)
        return False
    if op == "test": return k == "ri" and not (fwd(a[1]) and size(a[0]) == 1) or k == "mi" and size(a[0]) != 0 and not (fwd(a[1]) and size(a[0]) == 1)
    if op == "xchg":
        if k == "rr": return True if a[0][1] == "ax" and size(a[1]) == 2 else None if size(a[0]) == size(a[1]) else False
        return k == "rm" and not (size(a[1]) and size(a[1]) != size(a[0])) or (None if k == "mr" and size(a[0]) in (0, size(a[1])) else False)
    if op in ROT: return k == "rr" and a[1][1] == "cl" or ("one" if k == "ri" and not fwd(a[1]) else None if k in ("mr", "mi") and size(a[0]) else False)
    if op == "lea": return k == "rm" and size(a[0]) == 2
    if op == "call": return k == "r" and size(a[0]) == 2 or k == "i" or (None if k == "m" and size(a[0]) != 1 else False)
    if op in ("inc", "dec"): return k == "r" or k == "m" and size(a[0]) != 0
    if op == "push": return k == "r" and size(a[0]) == 2 or k == "s" or k == "m" and size(a[0]) == 2
    if op == "pop": return k == "r" and size(a[0]) == 2 or (None if a[0] == ("s", "cs") or k == "m" and size(a[0]) != 1 else k == "s")
    if op in ("mul", "imul", "div", "idiv", "not", "neg"): return k == "r" or (None if k == "m" and size(a[0]) else False)
    if op == "int": return "byte" if k == "i" and not fwd(a[0]) else False
    return False
def case(op, kinds):
    """op with every combination of operands, the numbers in them symbolic"""
    res = Result(); pc0 = PC(); num = Num("n", pc0); num2 = Num("k", pc0)
    T = [operands(k, num if i == 0 else num2) for i, k in enumerate(kinds)]
    res.sample({"statement": op, "operands": [len(t) for t in T], "first": [next(iter(t)) for t in T]})
    for ch in itertools.product(*T):
        if len(res.viols) > 6: break
        one(res, op, ch, [T[i][n] for i, n in enumerate(ch)], pc0.clone())
    return res
def one(res, op, ch, pairs, pc):
    a = [o for t, o in pairs]; what = op + " " + ", ".join(ch); src = flat("org %d\ncst equ 0x8180\nbck:\n" % ORG, op, " ")
    for i, (t, o) in enumerate(pairs): src += flat(", " if i else "") + t
    src += flat("\nfwd:\n db 'END'\n"); res.count("statements")
    for p in sasrun(src, pc):
        res.count("paths")
        if not (okpath(p) or rejected(p)): areport(res, "%s: %s" % (op, p.st), "ends with %s %s" % (p.st, p.msg), src, p.pc.model()); return
        def judge(f):
            want = supported(op, a) if None not in a else False
            if want == "one": want = f.dec(x16(a[1][2]).eq(1)) if ch[1] in ("num", "1", "bck", "equ") else None
            if want == "byte": want = f.dec(x16(a[0][2]).ult(256)) if ch[0] in ("num", "1", "bck", "equ") else None
            if rejected(p): return "%s is rejected" % what if want is True else None
            if want is False: return "%s is accepted" % what
            o = p.file("p.com")
            if o is None: return "%s: no output" % what
            try:
                d = Dec(f, o); ins = d.one()
                if len(o) != d.p + 3 or bytes(x if isinstance(x, int) else 0 for x in o[d.p:]) != b"END": raise Bad("%d bytes, the instruction read back (%s) has %d" % (len(o) - 3, txt(ins), d.p))
                FW = c16(ORG + d.p); b = []
                for x in a:
                    if x[0] == "i" and isinstance(x[2], str): x = ("i", x[1], FW)
                    if x[0] == "m" and isinstance(x[4], str): x = x[:4] + (FW,)
                    if x[0] == "m" and isinstance(x[4], tuple): x = x[:4] + (FW + x[4][1],)
                    b.append(x)
                if op == "call" and b[0][0] == "i": c = (ins[1][0][2] + FW).eq(x16(b[0][2])) if ins[0] == "call" and ins[1][0][0] == "rel" else None
                else: c = match(ins, op, b)
                if c is None: raise Bad("%s encodes %s" % (bytes(x if isinstance(x, int) else 0 for x in o[:d.p]).hex(), txt(ins)))
                m = f.pc.check(~c)
                return ("%s encodes other values: %s" % (what, txt(ins)), m) if m is not None else None
            except Bad as e: return "%s: %s" % (what, e)
        for q, r in forks(p.pc, judge):
            res.count("accepted" if okpath(p) else "rejected")
            if r: areport(res, what, r if isinstance(r, str) else r[0], src, q.model() if isinstance(r, str) else r[1]); return
def simple():
    """statements without operands, in any case, each followed by another one"""
    res = Result(); ops = ["cbw", "clc", "cli", "cmpsb", "cwd", "lodsb", "movsb", "ret", "stc", "sti", "stosb", "stosw", "rep movsb", "rep stosw", "rep stosb", "rep cmpsb", "RET", "Cwd", "rEp MOVSB", "push BX", "Mov Ax, bL", "INC Word [BX]"]
    pc = PC(); s = [B("a"), B("b")]; w = B("w"); pc.assume(inset(w, [9, 10, 13, 32]))
    for x in s: pc.assume(x.ult(len(ops)))
    src = pad(s[0], [o.encode() for o in ops]) + [w, 10] + pad(s[1], [o.encode() for o in ops]) + flat(" ; x"); res.sample({"statements": ops})
    for p in sasrun(src, pc):
        res.count("paths")
        def judge(f):
            ch = [ops[choose(f, x, len(ops))].lower() for x in s]; what = " / ".join(ch)
            exp = sum(([x] for c in ch for x in (c.split(" ") if c.startswith("rep") else [c])), []); bad = any("bl" in c for c in ch)
            if rejected(p): return None if bad else (what + " is rejected", what)
            if bad: return (what + " is accepted", what)
            d = Dec(f, p.file("p.com"))
            try:
                for e in exp:
                    g = d.one(); w_ = txt(g).strip()
                    if w_ not in (e, {"inc word [bx]": "inc word [bx+0x0]"}.get(e, e)) and not (e.startswith("inc word") and g[0] == "inc" and g[1][0][:4] == ("m", 2, None, ("bx",)) and g[1][0][4].val == 0): return ("%s: %s instead of %s" % (what, w_, e), what)
                if d.p != len(d.b): return (what + ": extra bytes", what)
            except Bad as e: return ("%s: %s" % (what, e), what)
        for q, r in forks(p.pc, judge):
            res.count("statements"); res.count("accepted" if okpath(p) else "rejected")
            if r: areport(res, r[1], r[0], src, q.model()); break
    return res
if __name__ == "__main__":
    C = Check("A01", "other", "sas's main executed symbolically (LLVM IR) on statements with symbolic operands and numbers; the emitted bytes are decoded by an independent 8086 decoder and the solver compares every field with the written operand", [
        "one statement per program, numbers are all 16-bit values written in decimal (also negated and complemented), one label before and one after", "an immediate that doesn't fit a byte operand: only its low byte is compared",
        "instruction forms sas doesn't support (for example [bx+di], xchg of byte registers, shl of memory) may be rejected or accepted, but what is accepted has to be encoded correctly", "jmp and conditional jumps are in A02; the host build"])
    mod("sas"); sx.native("sas"); T = C.thorough
    for op in ALU + ["mov", "test", "xchg"]:
        for k in ["rr", "ri", "rm", "mr", "Mi", "ir", "ii", "in"]: C.job("%s:%s" % (op, k), case, op, list(k)) if k != "rm" and k != "mr" or T else C.job("%s:%s" % (op, k), case, op, [c if c == "r" else "mM" if op in ("mov", "add", "cmp") else "n" for c in k])
        if not T: C.jobs.pop(next(i for i, j in enumerate(C.jobs) if j[0] == op + ":Mi")) if not C.only else None; C.job(op + ":Mj", case, op, list("Mj")); C.job(op + ":ni", case, op, list("ni"))
        for k in ["xr", "rx", "xi", "nn", "nM"]: C.job("%s:%s" % (op, k), case, op, list(k))
    for k in ["rm", "rM", "ri", "rr", "rx", "mr"]: C.job("lea:" + k, case, "lea", list(k) if k != "mr" else list("nr"))
    for op in ("shl", "shr", "sar"):
        for k in ["rr", "ri", "nr", "ni", "ri", "rn", "in"]: C.job("%s:%s" % (op, k), case, op, list(k))
    for op in ("call", "inc", "dec", "push", "pop", "mul", "imul", "div", "idiv", "not", "neg", "int"): C.job(op, case, op, ["rimMx"])
    C.job("simple", simple)
    C.bounds = {"numbers": "0..65535", "operands": sum(len(operands(k, Num("z", PC()))) for k in ("r", "i", "m", "M", "x")), "instructions": 45}
    sys.exit(C.run(need=["statements", "accepted", "rejected"]))
