from simlib import *
S = lambda n: var(n, 16)
B = lambda n: var(n, 8)
BASES = {0: ("BX", "SI"), 1: ("BX", "DI"), 2: ("BP", "SI"), 3: ("BP", "DI"), 4: ("SI",), 5: ("DI",), 6: ("BP",), 7: ("BX",)}
DEFSEG = {0: "DS", 1: "DS", 2: "SS", 3: "SS", 4: "DS", 5: "DS", 6: "SS", 7: "DS"}
R6 = ["AX", "CX", "DX", "BX", "BP", "SI", "DI"]
OV = {"ES": 0x26, "CS": 0x2E, "SS": 0x36, "DS": 0x3E}
def ea_of(mod, rm, d8, d16):
    if mod == 0 and rm == 6: return d16
    e = const(0, 16)
    for r in BASES[rm]: e = e + S(r.lower())
    if mod == 1: e = e + d8.sx(16)
    if mod == 2: e = e + d16
    return e
def disp(mod, rm, d8, d16): return w16(d16) if mod == 2 or (mod == 0 and rm == 6) else [d8] if mod == 1 else []
def lea_case(mod, rm, r):
    res = Result(); d8, d16 = B("d8"), S("d16")
    rg = {x: S(x.lower()) for x in R6}
    for dirty in (True, False):
        code = regs(rg, dirty) + [0x8D, mod << 6 | r << 3 | rm] + disp(mod, rm, d8, d16) + store_regs() + finish([(OUT, 16)])
        n = "LEA mod=%d rm=%d reg=%d" % (mod, rm, r); res.count("programs"); res.sample(n)
        compare(res, com(code, {OUT: [0] * 32}), n, n, limit=1)
    return res
# 4 overlapping segments: the same offset names a different paragraph in each
WIN = 0x700; SEGV = {"CS": SEG, "DS": SEG + 0x10, "ES": SEG + 0x20, "SS": SEG + 0x30}
def ops(w):
    return {"load": [0x8A + w], "store": [0x88 + w], "add": [0x00 + w], "inc": [0xFE + w], "movimm": [0xC6 + w], "cmp": [0x3A + w], "sub imm": [0x80 + w]}
def mem_case(mod, rm, seg, opn, w, r=0, spread=2):
    res = Result(); d8, d16 = B("d8"), S("d16"); ea = ea_of(mod, rm, d8, d16)
    if w and opn in ("load",) and r == 0 and rm in (0,): r = 2
    rg = {x: S(x.lower()) for x in R6}; pc = PC()
    if not pc.assume(ea.uge(WIN) & ea.ule(WIN + spread)): raise Exception("no such address")
    reg = {"inc": 0, "movimm": 0, "sub imm": 5}.get(opn, r)
    op = ops(w)[opn]
    body = ([OV[seg]] if seg else []) + op + [mod << 6 | reg << 3 | rm] + disp(mod, rm, d8, d16)
    if opn in ("movimm", "sub imm"): body += w16(S("imm")) if w else [S("imm").ex(0, 8)]
    data = {OUT: [0] * 32}
    for i in range(4):
        data[WIN - 1 + 0x100 * i] = [0x10 + 16 * i] + [B("m%d%d" % (i, k)) for k in range(spread + 2)] + [0x11 + 16 * i]
    code = movs("ES", SEGV["ES"]) + movs("SS", SEGV["SS"]) + movs("DS", SEGV["DS"]) + regs(rg) + body + store_regs(True) + (jcc_dump([JC, JZ]) if opn == "cmp" else [])
    dumps = [(OUT, 28)] + [(WIN - 1 + 0x100 * i, spread + 4) for i in range(4)] if opn != "load" and opn != "cmp" else [(OUT, 28)]
    n = "%s w%d mod=%d rm=%d seg=%s" % (opn, w, mod, rm, seg or "default"); res.count("programs"); res.sample(n)
    compare(res, com(code + finish(dumps), data), n, n, pc=pc, limit=1)
    return res
def multi(fs):
    r = Result()
    for f, a in fs:
        q = f(*a); r.viols += q.viols; r.samples = (r.samples + q.samples)[:2]
        for k, v in q.n.items(): r.count(k, v)
    return r
def wrap_case(mod, rm, opn, w, window, segval):
    """addresses around the end of a segment / of memory: stores followed by loads through plain offsets"""
    res = Result(); d8, d16 = B("d8"), S("d16"); ea = ea_of(mod, rm, d8, d16); pc = PC()
    lo, hi = window
    c = (ea.uge(lo) | ea.ule(hi)) if lo > hi else (ea.uge(lo) & ea.ule(hi))
    if not pc.assume(c): raise Exception("no such address")
    rg = {x: S(x.lower()) for x in R6}; sg = "DS" if DEFSEG[rm] == "DS" or (mod == 0 and rm == 6) else "SS"
    span = [(lo + i) & 0xffff for i in range(((hi - lo) & 0xffff) + 3)]
    code = movs("DS", segval)
    for i, a in enumerate(span): code += [0xC6, 0x06] + w16(a) + [B("m%d" % i)]
    if sg == "SS": code += movs("DS", SEG) + movs("SS", segval)
    code += regs(rg) + ops(w)[opn] + [mod << 6 | 2 << 3 | rm if opn != "inc" else mod << 6 | rm] + disp(mod, rm, d8, d16)
    code += store_regs(True) + movs("SS", SEG) + [0xBC, 0xFE, 0xFF]
    code += finish([(OUT, 24)])[:-5]
    # copy the window back through plain offsets
    code += movs("DS", segval)
    for i, a in enumerate(span): code += [0xA0] + w16(a) + [0x2E, 0xA2] + w16(OUT + 32 + i)
    code += finish([(OUT + 32, len(span))])
    n = "%s w%d mod=%d rm=%d near %04X seg %04X" % (opn, w, mod, rm, lo, segval); res.count("programs")
    compare(res, com(code, {OUT: [0] * 64}), n, n, pc=pc, limit=1)
    return res
def segsym_case(opn, w):
    """symbolic segment register"""
    res = Result(); pc = PC(); s = S("sv"); pc.assume(s.uge(SEG + 0x10) & s.ule(SEG + 0x13)); res.count("programs")
    body = ops(w)[opn] + [0x00 | 2 << 3 | 7 if opn != "inc" else 7]
    data = {OUT: [0] * 32}; 
    for i in range(5): data[WIN + 0x100 + 16 * i] = [B("m%d" % i), B("n%d" % i)]
    code = movs("DS", s) + regs({"AX": S("ax"), "DX": S("dx"), "BX": WIN}) + body + store_regs(True) + finish([(OUT, 28), (WIN + 0x100, 0x44)])
    n = "%s w%d with variable DS" % (opn, w); compare(res, com(code, data), n, n, pc=pc, limit=1); return res
def acc_case(oc, seg, off):
    res = Result(); res.count("programs"); data = {OUT: [0] * 32}
    for i in range(4): data[WIN + 0x100 * i] = [B("m%d" % (2 * i)), B("m%d" % (2 * i + 1))]
    code = movs("ES", SEGV["ES"]) + movs("SS", SEGV["SS"]) + movs("DS", SEGV["DS"]) + regs({"AX": S("ax")}, False) + ([OV[seg]] if seg else []) + [oc] + w16(WIN) + store_regs(True) + finish([(OUT, 28)] + [(WIN + 0x100 * i - 1, 4) for i in range(4)])
    n = "MOV %02X seg=%s" % (oc, seg or "default"); compare(res, com(code, data), n, n, limit=1); return res
def other_case(nm, body, sp=None):
    "instructions with a segment override and other operand forms"
    res = Result(); res.count("programs"); data = {OUT: [0] * 32}
    for i in range(4): data[WIN + 0x100 * i] = [B("m%d" % (2 * i)), B("m%d" % (2 * i + 1))]
    rg = {x: S(x.lower()) for x in R6}; rg["BX"] = WIN; rg["CX"] = 3; rg["DX"] = 0
    pc = PC()
    code = movs("ES", SEGV["ES"]) + movs("SS", SEGV["SS"]) + movs("DS", SEGV["DS"]) + regs(rg) + body + store_regs(True) + finish([(OUT, 28)] + [(WIN + 0x100 * i - 1, 4) for i in range(4)])
    compare(res, com(code, data), nm, nm, pc=pc, limit=1); return res
if __name__ == "__main__":
    C = Check("M03", "other", "symbolic execution of sim86's LLVM IR against a symbolic 8086 model (SMT, QF_BV)", [
        "memory-operand checks bound the effective address to small windows (ordinary, end of segment, end of memory) while base, index and displacement are unconstrained otherwise; LEA is checked for all addresses"])
    T = C.thorough; sx.tool_bc("sim86"); sx.native("sim86"); sx.native("sim86", True)
    forms = [(m, r) for m in range(3) for r in range(8)]
    for m, r in forms: C.job("lea%d%d" % (m, r), multi, [(lea_case, (m, r, q)) for q in ((0, 3, 5, 6) if not T else (0, 1, 2, 3, 5, 6, 7))])
    OPS = ["load", "store", "add", "inc", "movimm", "cmp", "sub imm"]
    for m, r in forms:
        for sg in (None, "ES", "CS", "SS", "DS"):
            l = [(mem_case, (m, r, sg, o, w, 2 if r != 2 else 1)) for o in OPS for w in (0, 1) if T or o in ("load", "store") or (OPS.index(o) + r + m + w) % 3 == 0]
            C.job("mem%d%d%s" % (m, r, sg), multi, l)
    for m, r in forms:
        l = []
        for o in ("load", "store", "add") if T else ("load", "store"):
            for w in (0, 1):
                l += [(wrap_case, (m, r, o, w, (0xFFFE, 0x0000), 0x3000)), (wrap_case, (m, r, o, w, (0x7FFE, 0x8001), 0xF800))]
        C.job("wrap%d%d" % (m, r), multi, l)
    for o in ("load", "store", "inc"):
        for w in (0, 1): C.job("segsym", segsym_case, o, w)
    for oc in (0xA0, 0xA1, 0xA2, 0xA3):
        for sg in (None, "ES", "CS", "SS"): C.job("acc", acc_case, oc, sg, WIN)
    for sg in (None, "ES", "CS", "SS"):
        p = [OV[sg]] if sg else []
        for nm, b in (("SHL", [0xD1, 0x27]), ("SAR CL", [0xD3, 0x3F]), ("NOT", [0xF7, 0x17]), ("NEG", [0xF7, 0x1F]), ("MUL", [0xF7, 0x27]), ("MOV Sreg", [0x8E, 0x07]), ("MOV m,Sreg", [0x8C, 0x1F]), ("DEC w", [0xFF, 0x0F]), ("DEC b", [0xFE, 0x0F]), ("CMP imm", [0x81, 0x3F, 0x34, 0x12]), ("ADC imm8", [0x83, 0x17, 0xF0])):
            C.job("other", other_case, "%s [BX] seg=%s" % (nm, sg or "default"), p + b)
    C.bounds = {"address_window": 3, "base_index_displacement": "all 16-bit values reaching the window", "lea": "all values"}
    sys.exit(C.run(need=["path_pairs", "programs"]))
