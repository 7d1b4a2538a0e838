from simlib import *
OPN = ["ADD", "OR", "ADC", "SBB", "AND", "SUB", "XOR", "CMP"]
ALLF = [JC, JZ, JS, JO]
MEM = 0x06  # mod 0 rm 6
R16 = ["AX", "CX", "DX", "BX", "BP", "SI", "DI"]
def S(n): return var(n, 16)
def allregs(): return {r: S(r.lower()) for r in R16}
class Case:
    def __init__(s, name, code, ccs=(), flags=False, fixed=None, assume=None, mem=False, pre=(), allow=None):
        s.name = name; s.code = list(code); s.ccs = list(ccs); s.flags = flags; s.fixed = fixed or {}; s.assume = assume; s.mem = mem; s.pre = list(pre); s.allow = allow
def operand(kind):
    "modrm low part + disp for an operand: register number or the memory word at DATA"
    return (0xC0 | kind, []) if kind != "m" else (MEM, w16(DATA))
def cases(thorough):
    o = []
    pairs16 = [(0, 0), (0, 3), (3, 0), (1, 2), (6, 7), (5, 1), (7, 7)] if not thorough else [(a, b) for a in (0, 1, 2, 3, 5, 6, 7) for b in (0, 1, 2, 3, 5, 6, 7)]
    pairs8 = [(0, 0), (0, 4), (4, 0), (3, 7), (7, 1), (2, 6), (5, 5)] if not thorough else [(a, b) for a in range(8) for b in range(8)]
    for op in range(8):
        f = op in (2, 3)
        for w in (0, 1):
            for d in (0, 2):
                for rm, r in (pairs16 if w else pairs8) + [("m", 0), ("m", 3), ("m", 7)]:
                    mr, disp = operand(rm); o.append(Case("%s w%d d%d rm=%s r=%d" % (OPN[op], w, d, rm, r), [op * 8 + d + w, mr | r << 3] + disp, ALLF, f, mem=rm == "m"))
        i = S("imm")
        o.append(Case("%s AL,imm" % OPN[op], [op * 8 + 4, i.ex(0, 8)], ALLF, f)); o.append(Case("%s AX,imm" % OPN[op], [op * 8 + 5] + w16(i), ALLF, f))
        for rm in (0, 3, 5, 7, "m"):
            mr, disp = operand(rm)
            for oc in (0x80, 0x81, 0x82, 0x83): o.append(Case("%s %02X rm=%s" % (OPN[op], oc, rm), [oc, mr | op << 3] + disp + (w16(i) if oc == 0x81 else [i.ex(0, 8)]), ALLF, f, mem=rm == "m"))
    for r in (0, 1, 2, 3, 5, 6, 7):
        o.append(Case("INC r%d" % r, [0x40 + r], ALLF, True)); o.append(Case("DEC r%d" % r, [0x48 + r], ALLF, True))
        o.append(Case("XCHG AX,r%d" % r, [0x90 + r], ALLF, True))
        o.append(Case("MOV r%d,imm" % r, [0xB8 + r] + w16(S("imm")), ALLF, True))
        o.append(Case("PUSH POP r%d" % r, [0x50 + r, 0x58 + (r + 1) % 4], ALLF, True))
    for r in range(8): o.append(Case("MOV b%d,imm" % r, [0xB0 + r, S("imm").ex(0, 8)], ALLF, True))
    for rm in (0, 1, 3, 5, 6, "m"):
        mr, disp = operand(rm); mm = rm == "m"
        for op, n in ((0, "INC"), (1, "DEC")):
            for oc in (0xFE, 0xFF): o.append(Case("%s %02X rm=%s" % (n, oc, rm), [oc, mr | op << 3] + disp, ALLF, True, mem=mm))
        o.append(Case("NOT rm=%s" % rm, [0xF7, mr | 2 << 3] + disp, ALLF, True, mem=mm))
        o.append(Case("NEG rm=%s" % rm, [0xF7, mr | 3 << 3] + disp, ALLF, True, mem=mm))
        if rm != 6 or thorough:
            o.append(Case("MUL rm=%s" % rm, [0xF7, mr | 4 << 3] + disp, [JC, JO], False, mem=mm)); o.append(Case("IMUL rm=%s" % rm, [0xF7, mr | 5 << 3] + disp, [JC, JO], False, mem=mm))
        for ext in (4, 5, 7):
            n = {4: "SHL", 5: "SHR", 7: "SAR"}[ext]
            o.append(Case("%s 1 rm=%s" % (n, rm), [0xD1, mr | ext << 3] + disp, ALLF, True, mem=mm))
            if rm == 1: continue
            for cl in list(range(0, 17)) + [17, 31, 32, 64, 128, 255]:
                if cl > 1 and cl % 3 and not thorough and rm != 0: continue
                cc = ALLF if cl <= 1 else [JC, JZ, JS] if cl <= 16 or ext == 7 else [JZ, JS]
                o.append(Case("%s CL=%d rm=%s" % (n, cl, rm), [0xD3, mr | ext << 3] + disp, cc, cl == 0, mem=mm, fixed={"CX": S("cx").ex(8, 8).cat(const(cl, 8))}))
        for r in (0, 3, 6):
            for w in (0, 1):
                o.append(Case("MOV w%d rm=%s <- r%d" % (w, rm, r), [0x88 + w, mr | r << 3] + disp, ALLF, True, mem=mm))
                o.append(Case("MOV w%d r%d <- rm=%s" % (w, r, rm), [0x8A + w, mr | r << 3] + disp, ALLF, True, mem=mm))
        o.append(Case("MOV C6 rm=%s" % rm, [0xC6, mr] + disp + [S("imm").ex(0, 8)], ALLF, True, mem=mm))
        o.append(Case("MOV C7 rm=%s" % rm, [0xC7, mr] + disp + w16(S("imm")), ALLF, True, mem=mm))
    for rm in (1, 3, 6, "m"):
        mr, disp = operand(rm)
        dv = {1: S("cx"), 3: S("bx"), 6: S("si")}.get(rm)
        if rm == "m": dv = var("m1", 8).cat(var("m0", 8))
        o.append(Case("DIV rm=%s" % rm, [0xF7, mr | 6 << 3] + disp, [], False, mem=rm == "m", fixed={"DX": 0}, assume=dv.ne(0)))
        dxv = S("ax").ashr(15)
        o.append(Case("IDIV rm=%s" % rm, [0x99, 0xF7, mr | 7 << 3] + disp, [], False, mem=rm == "m", assume=dv.ne(0)))
        o.append(Case("IDIV DX given rm=%s" % rm, [0xF7, mr | 7 << 3] + disp, [], False, mem=rm == "m", fixed={"DX": dxv}, assume=dv.ne(0)))
    o.append(Case("CBW", [0x98], ALLF, True)); o.append(Case("CWD", [0x99], ALLF, True))
    for oc in (0xA0, 0xA1, 0xA2, 0xA3): o.append(Case("MOV %02X" % oc, [oc] + w16(DATA), ALLF, True, mem=True))
    # results of one instruction feeding another (state kept between instructions)
    f2 = [("SUB NOT CMP", [0x29, 0xD8, 0xF7, 0xD0, 0x39, 0xC8]), ("ADD SBB mask", [0x01, 0xD8, 0x19, 0xC0]), ("IMUL SAR", [0xF7, 0xEB, 0xD1, 0xF8]), ("NEG SHR", [0xF7, 0xD8, 0xD1, 0xE8]),
          ("DEC CMP", [0x48, 0x39, 0xD8]), ("INC ADD byte", [0x41, 0x00, 0xC8]), ("CBW CMP", [0x98, 0x39, 0xD8]), ("NOT MUL", [0xF7, 0xD0, 0xF7, 0xE3]), ("SHL DIV", [0xD1, 0xE0, 0x31, 0xD2, 0xF7, 0xF1]),
          ("INC JCC ADC", [0x40, 0x11, 0xD8]), ("DEC SBB", [0x4B, 0x19, 0xD8]), ("CMP INC", [0x39, 0xD8, 0x40]), ("TEST-like AND INC", [0x21, 0xC0, 0x43]), ("SHL ADC", [0xD1, 0xE3, 0x11, 0xC9]), ("XCHG AH", [0x88, 0xE0, 0x00, 0xC4])]
    for n, c in f2: o.append(Case("seq " + n, c, [JC, JO] if "MUL" in n and "SAR" not in n else [] if "DIV" in n else ALLF, n in ("INC JCC ADC", "DEC SBB"), assume=S("cx").ne(0) if "DIV" in n else None))
    return o
def run_case(c, dirty, base_regs):
    res = Result(); f = c.code
    rg = {r: S(r.lower()) for r in base_regs}; rg.update(c.fixed)
    code = (setflags(S("fa"), S("fb")) if c.flags else []) + c.pre
    if c.flags and dirty: pass
    code += regs(rg, dirty) + f + store_regs() + jcc_dump(c.ccs) + finish([(OUT, 28), (DATA - 2, 6)])
    pc = PC()
    if c.assume is not None: pc.assume(c.assume)
    data = {OUT: [0] * 32, DATA - 2: [0x11, 0x22] + [var("m0", 8), var("m1", 8)] + [0x33, 0x44]}
    sig = "%s %s" % (c.name, "computed" if dirty else "loaded")
    compare(res, com(code, data), sig, "instruction %s, registers %s" % (c.name, "holding computed values" if dirty else "freshly loaded"), pc=pc, limit=1)
    res.count("instruction_forms"); res.sample("%s: %s" % (sig, code and " ".join("%02X" % b if isinstance(b, int) else "sym" for b in f)))
    return res
def batch(cs):
    r = Result()
    for c, d in cs:
        q = run_case(c, d, R16); r.viols += q.viols; r.samples = (r.samples + q.samples)[:2]
        for k, v in q.n.items(): r.count(k, v)
    return r
if __name__ == "__main__":
    C = Check("M01", "other", "symbolic execution of sim86's LLVM IR against a symbolic 8086 model (SMT, QF_BV)", [
        "operand values: all 2^16 values of every register, memory operand and immediate", "divide errors (quotient overflow, division by zero) and, for DIV/IDIV, dividends wider than 16 bits are outside the property",
        "flags the 8086 manual leaves undefined are not compared; parity and auxiliary carry are not observable with sim86's instruction set"])
    cs = []
    for c in cases(C.thorough):
        for d in (True, False):
            if not d and not C.thorough and (len(cs) % 3): pass
            cs.append((c, d))
    C.bounds = {"instruction_forms": len(cs), "operand_bits": 16}
    B = 12
    sx.tool_bc("sim86"); sx.native("sim86"); sx.native("sim86", True)
    for i in range(0, len(cs), B): C.job(cs[i][0].name.replace(" ", "_"), batch, cs[i:i + B])
    sys.exit(C.run(need=["path_pairs", "instruction_forms"]))
