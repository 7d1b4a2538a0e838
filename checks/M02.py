from simlib import *
S = lambda n: var(n, 16)
B = lambda n: var(n, 8)
R7 = ["AX", "CX", "DX", "BX", "BP", "SI", "DI"]
JCCS = [JO, JNO, JC, JNC, JZ, JNZ, JNA, JA, JS, JNS, JL, JNL, JNG, JG]
def go(res, name, code, data=None, pc=None, argsz=0, **kw):
    res.count("programs"); res.sample(name + ": " + " ".join("%02X" % b if isinstance(b, int) else "??" for b in code[:24]))
    compare(res, com(code, data, argsz), name, name, pc=pc, limit=1, **kw)
def jcc_case(cc, a, b, nm):
    res = Result()
    code = setflags(a, b) + jcc_dump([cc]) + store_regs() + finish([(OUT, 28)])
    go(res, "Jcc %X after CMP (%s)" % (cc, nm), code, {OUT: [0] * 32}); return res
def sled(op, near, lo, hi, nm, cc_flags=None):
    """jump with symbolic displacement into a sled of INC AX; the number executed shows where it landed"""
    res = Result(); d = const(0x1ff if lo < 0 else 0, 9).cat(var("disp7", 7))
    if near: d = B("disp").zx(16) + const(lo & 0xffff, 16)
    base = 0x300  # address of the jump
    pre = movr("AX", 0) + (setflags(*cc_flags) if cc_flags else []) + (movr("BX", 0))
    ilen = 3 if near else 2
    if op == 0xE8: pre += []
    f = [0x43] * 0x500  # INC BX
    def put(at, bs): f[at - 0x100:at - 0x100 + len(bs)] = bs
    head = pre + [0xE9] + w16(base - (0x100 + len(pre) + 3)); put(0x100, head)
    put(base, [op] + (w16(d) if near else [d.ex(0, 8)]))
    ep = store_regs() + finish([(OUT + 0x200, 28), (0xFFF0, 14)])
    ep = [b for b in ep]
    # result area behind the sled
    outp = OUT + 0x200
    o = []
    for i in range(8): o += [0x2E, 0x89, 0x06 | i << 3] + w16(outp + 2 * i)
    o += finish([(outp, 16), (0xFFF0, 14)])
    put(base - 3, [0xE9] + w16(0x500 - base)); put(0x500, o)
    f = f[:max(0x500 + len(o), outp + 32) - 0x100] + [0] * 64
    if len(f) < outp + 32 - 0x100: f += [0] * (outp + 32 - 0x100 - len(f))
    pc = PC(); pc.assume(d.sge(lo) & d.sle(hi) & ~(d.sge(-ilen - 2 - 0) & d.slt(0)))
    if not near: pass
    res.count("programs")
    compare(res, f, "%s displacement" % nm, "%s with displacement %d..%d" % (nm, lo, hi), pc=pc, limit=1, conc=400)
    return res
def far_jump(op, target, nm):
    res = Result()
    o = store_regs() + finish([(OUT, 16), (0xFFF0, 14)])
    code = [op] + w16(target - 0x103)
    f = com(code, {OUT: [0] * 32})
    assert target >= OUT + 32
    f += [0] * (target - 0x100 - len(f)) + o
    res.count("programs"); compare(res, f, "%s to %04X" % (nm, target), "%s from 0103 to %04X" % (nm, target), limit=1); return res
def call_cases():
    res = Result()
    # CALL rel / RET: function adds, result stored; stack contents dumped
    body = regs({"AX": S("ax"), "CX": S("cx")}) + [0xE8, 3, 0, 0xEB, 3, 0x90, 0x01, 0xC8, 0xC3]
    # layout: call +3 -> function at the ADD; jmp over
    n = len(regs({"AX": S("ax"), "CX": S("cx")})); assert body[n:n + 3] == [0xE8, 3, 0]
    go(res, "CALL rel16 and RET", body + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32})
    for r in (0, 1, 2, 3, 5, 6, 7):
        v = {REGS[i]: S(REGS[i].lower()) for i in (0, 1, 2, 3, 5, 6, 7)}
        pre = regs({k: x for k, x in v.items() if k != REGS[r]})
        at = 0x100 + len(pre) + 3 + 2 + 2; v2 = pre + movr(r, at)
        go(res, "CALL r%d" % r, v2 + [0xFF, 0xC0 | 2 << 3 | r, 0xEB, 3, 0x29, 0xD1, 0xC3] + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32})
    at = 0x100 + 3 + 4 + 2; pre = regs({"AX": S("ax")}, False)
    go(res, "CALL [mem]", pre + [0xFF, 0x16] + w16(DATA) + [0xEB, 3, 0xF7, 0xD0, 0xC3] + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32, DATA: w16(at)})
    pre = movr("BX", S("bx")) + regs({"AX": S("ax")}, False); at = 0x100 + len(pre) + 3 + 2
    pc = PC(); pc.assume(S("bx").uge(DATA) & S("bx").ule(DATA + 3))
    go(res, "CALL [BX+disp8]", pre + [0xFF, 0x57, 0xFE] + [0xEB, 3, 0xF7, 0xD0, 0xC3] + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32, DATA - 2: w16(at) * 1 + w16(at) * 0 + [0x90] * 0}, pc=(lambda p: (p.assume(S("bx").eq(DATA)), p)[1])(PC()))
    # the operand is read before the return address overwrites it
    pre = movr("BP", 0xFFFC) + [0xC7, 0x46, 0x00] + w16(0) + regs({"AX": S("ax")}, False); at = 0x100 + len(pre) + 3 + 2; pre[len(movr("BP", 0)) + 3:len(movr("BP", 0)) + 5] = w16(at)
    go(res, "CALL with the target in the word below the stack", pre + [0xFF, 0x56, 0x00] + [0xEB, 3, 0xF7, 0xD0, 0xC3] + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32})
    # nested calls: return addresses stack up and come back in order
    # f: call g; add ax,1; ret   g: add ax,ax; ret
    pre = regs({"AX": S("ax")}); c = pre + [0xE8, 2, 0, 0xEB, 10, 0xE8, 4, 0, 0x05, 1, 0, 0xC3, 0x01, 0xC0, 0xC3]
    n = len(pre); assert n + 5 + 7 == n + 12
    go(res, "nested CALL", pre + [0xE8, 2, 0, 0xEB, 10, 0xE8, 4, 0, 0x05, 1, 0, 0xC3, 0x01, 0xC0, 0xC3] + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32})
    # RET to an address computed by the guest
    pre = regs({"AX": S("ax")}); at = 0x100 + len(pre) + 3 + 1 + 1 + 1
    go(res, "PUSH CX, RET", pre + movr("CX", at) + [0x51, 0xC3, 0x40] + store_regs() + finish([(OUT, 28), (0xFFF0, 14)]), {OUT: [0] * 32})
    return res
def stack_case(sp, sseg):
    res = Result(); v = {r: S(r.lower()) for r in R7}
    dumps = [(sseg, (sp - 6) & 0xffff, min(6, 0x10000 - ((sp - 6) & 0xffff)))] + ([(sseg, 0, 8)] if sp < 8 or sp > 0xfff8 else [(sseg, sp, min(4, 0x10000 - sp))])
    for r in range(8):
        if r == 4: continue
        q = (r + 1) % 4
        pre = movs("SS", sseg) + [0xBC] + w16(sp) + regs(v)
        go(res, "PUSH r%d at SP=%04X SS=%04X" % (r, sp, sseg), pre + [0x50 + r] + store_regs(True) + finish([(OUT, 28)] + dumps), {OUT: [0] * 32})
        go(res, "PUSH r%d POP r%d at SP=%04X SS=%04X" % (r, q, sp, sseg), pre + [0x50 + r, 0x50 + q, 0x58 + r, 0x58 + q] + store_regs(True) + finish([(OUT, 28)] + dumps), {OUT: [0] * 32})
    pre = movs("SS", sseg) + [0xBC] + w16(sp) + regs(v)
    go(res, "POP AX at SP=%04X SS=%04X" % (sp, sseg), pre + [0x58] + store_regs(True) + finish([(OUT, 28)] + dumps), {OUT: [0] * 32})
    go(res, "POP SP at SP=%04X SS=%04X" % (sp, sseg), pre + [0x50, 0x5C] + store_regs(True) + finish([(OUT, 28)] + dumps), {OUT: [0] * 32})
    for s in range(4):
        go(res, "PUSH seg%d at SP=%04X" % (s, sp), pre + [0x06 | s << 3] + store_regs(True) + finish([(OUT, 28)] + dumps), {OUT: [0] * 32})
        if s != 1 and s != 2: go(res, "POP seg%d at SP=%04X" % (s, sp), pre + [0x50, 0x07 | s << 3] + store_regs(True) + finish([(OUT, 28)] + dumps), {OUT: [0] * 32})
    return res
def seg_cases():
    res = Result(); v = {r: S(r.lower()) for r in R7}
    for s in (0, 3):
        for r in (0, 1, 3, 5, 7): go(res, "MOV seg%d,r%d" % (s, r), regs(v) + [0x8E, 0xC0 | s << 3 | r] + store_regs(True) + finish([(OUT, 28)]), {OUT: [0] * 32})
        go(res, "MOV seg%d,[mem]" % s, regs(v) + [0x8E, 0x06 | s << 3] + w16(DATA) + store_regs(True) + finish([(OUT, 28)]), {OUT: [0] * 32, DATA: w16(S("m"))})
    for s in range(4):
        for r in (0, 2, 6): go(res, "MOV r%d,seg%d" % (r, s), movs("ES", S("es")) + regs(v) + [0x8C, 0xC0 | s << 3 | r] + store_regs(True) + finish([(OUT, 28)]), {OUT: [0] * 32})
        go(res, "MOV [mem],seg%d" % s, movs("ES", S("es")) + regs(v) + [0x8C, 0x06 | s << 3] + w16(DATA) + store_regs(True) + finish([(OUT, 28), (DATA - 2, 6)]), {OUT: [0] * 32, DATA: [1, 2, 3, 4]})
    for r in range(1, 8):
        go(res, "XCHG AX,r%d" % r, regs(v) + [0x90 + r] + ([0x94] if r == 4 else []) + store_regs() + finish([(OUT, 28)]), {OUT: [0] * 32})
    for n, c in (("XCHG in place", [0x93, 0x91, 0x92, 0x97]),): go(res, n, regs(v) + c + store_regs() + finish([(OUT, 28)]), {OUT: [0] * 32})
    return res
def string_case(name, ins, w, maxcx, si, di, es, ds, df=None, flags=True, syms=6, rep=True, ov=None, count=None):
    """string instruction with symbolic counter, data and accumulator"""
    res = Result(); d = [B("d%d" % i) for i in range(syms)]; t = [B("t%d" % i) for i in range(syms)]
    cx = S("cx") if count is None else const(count, 16); pc = PC()
    if rep and count is None: pc.assume(cx.ule(maxcx))
    # fill source (ds:si) and destination (es:di) by copying from the file, then run
    code = []
    srcseg = {None: ds, 0x26: es, 0x2E: SEG}[ov]
    for i, b in enumerate(d):  # MOV BYTE [DS:disp], imm
        pass
    code += movs("DS", srcseg)
    for i, b in enumerate(d): code += [0xC6, 0x06] + w16(si + i) + [b]
    code += movs("DS", es)
    if ins & 0xFE not in (0xAC,):
        for i, b in enumerate(t): code += [0xC6, 0x06] + w16(di + i) + [b]
    code += movs("ES", es) + movs("DS", ds)
    code += setflags(S("fa"), S("fb")) if flags else []
    code += movr("AX", S("ax")) + movr("CX", cx) + movr("SI", si) + movr("DI", di) + movr("BX", 7)
    code += ([{0xA6: 0xF3, 0xAE: 0xF2}.get(ins & 0xFE, 0xF3)] if rep else []) + ([ov] if ov else []) + [ins] + store_regs(True) + jcc_dump([JC, JZ, JS, JO])
    lo = lambda x, n: [(x, min(n, 0x10000 - x))] + ([(0, n - (0x10000 - x))] if x + n > 0x10000 else [])
    dumps = [(OUT, 28)] + [(es, a, n) for a, n in lo((di - 1) & 0xffff, syms + 2)] + [(srcseg, a, n) for a, n in lo((si - 1) & 0xffff, syms + 2)]
    code += finish(dumps)
    go(res, name, code, {OUT: [0] * 32}, pc=pc, **({"steps": 400000} if count else {}))
    return res
def misc_exit():
    res = Result()
    go(res, "INT 20", [0xCD, 0x20]); 
    code = [0xB8] + [B("code"), 0x4C, 0xCD, 0x21]; go(res, "INT 21/4C", code)
    return res
if __name__ == "__main__":
    C = Check("M02", "other", "symbolic execution of sim86's LLVM IR against a symbolic 8086 model (SMT, QF_BV)", [
        "PUSH SP (differs between 8086 and later CPUs) is not compared", "instructions sim86 refuses (it stops with a message) are outside the property; every form listed in the check must be executed",
        "REP counters up to the stated bound"])
    T = C.thorough
    C.bounds = {"rep_count": 6 if T else 3, "short_jump": "all 8-bit displacements except those into the jump itself", "near_jump": "-500..+380 and selected far targets", "data_bits": "all register and memory values"}
    sx.tool_bc("sim86"); sx.native("sim86"); sx.native("sim86", True)
    for cc in JCCS:
        C.job("jcc%X" % cc, jcc_case, cc, S("fa"), S("fb"), "all operand values")
        taken = {JO: (0x7fff, 0xffff), JNO: (0, 0), JC: (0, 1), JNC: (0, 0), JZ: (0, 0), JNZ: (1, 0), JNA: (0, 1), JA: (1, 0), JS: (0, 1), JNS: (1, 0), JL: (0, 1), JNL: (0, 0), JNG: (0, 0), JG: (1, 0)}[cc]
        for lo, hi in ((-128, -1), (0, 127)): C.job("jccdisp%X" % cc, sled, 0x70 | cc, False, lo, hi, "Jcc %X" % cc, taken)
    for lo, hi in ((-128, -1), (0, 127)): C.job("jmpshort", sled, 0xEB, False, lo, hi, "JMP short")
    for lo, hi in ((-0x1f0, -0x100), (-0x102, -3), (0, 0xff), (0x100, 0x17c)): C.job("jmpnear", sled, 0xE9, True, lo, hi, "JMP near %d..%d" % (lo, hi))
    for lo, hi in ((-0x1f0, -0x100), (-0x102, -3), (0, 0xff), (0x100, 0x17c)): C.job("call", sled, 0xE8, True, lo, hi, "CALL near %d..%d" % (lo, hi))
    for op, n in ((0xE9, "JMP near"), (0xE8, "CALL near")):
        for t in (0x680, 0x7F00, 0x8103, 0x8200, 0xF000): C.job("far_%X_%X" % (op, t), far_jump, op, t, n)
    C.job("calls", call_cases); C.job("segs", seg_cases); C.job("exit", misc_exit)
    for sp in (0, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF): C.job("stack%X" % sp, stack_case, sp, 0x3000)
    C.job("stackhigh", stack_case, 0x8100, 0xF900)
    N = 6 if T else 3
    for nm, ins, rep in (("REP MOVSB", 0xA4, 1), ("REP MOVSW", 0xA5, 1), ("REPE CMPSB", 0xA6, 1), ("STOSB", 0xAA, 0), ("REP STOSB", 0xAA, 1), ("STOSW", 0xAB, 0), ("REP STOSW", 0xAB, 1), ("LODSB", 0xAC, 0), ("LODSW", 0xAD, 0), ("REPNE SCASB", 0xAE, 1)):
        for si, di, es, ds in ((0x1000, 0x2000, 0x3000, 0x4000), (0xFFFE, 0x10, 0x3000, 0x4000), (0x10, 0xFFFE, 0x3000, 0x4000), (0xFFFF, 0x10, 0x3000, 0x4000), (0x10, 0xFFFF, 0x3000, 0x4000), (0x1000, 0x1001, 0x3000, 0x3000), (0x1001, 0x1000, 0x3000, 0x3000)):
            if ins & 1 and (si & 1 and False): continue
            if not T and ins & 0xFE in (0xAC, 0xAE, 0xAA) and es == ds: continue
            fl = ins not in (0xA6, 0xAE) or True
            C.job("%s_%X_%X" % (nm.replace(" ", "_"), si, di), string_case, "%s SI=%04X DI=%04X ES=%04X DS=%04X" % (nm, si, di, es, ds), ins, 0, N, si, di, es, ds, None, True, 6, bool(rep))
        if ins in (0xA4, 0xA5, 0xA6, 0xAC, 0xAD):
            for ov in (0x26, 0x2E): C.job("%s_ov%X" % (nm.replace(" ", "_"), ov), string_case, "%s with override %02X" % (nm, ov), ins, 0, N, 0x1000, 0x2000, 0x3000, 0x4000, None, False, 6, bool(rep), ov)
    for nm, ins in (("REP MOVSB", 0xA4), ("REP MOVSW", 0xA5), ("REP STOSB", 0xAA), ("REP STOSW", 0xAB)):
        for n in (0x7FFF, 0x8000, 0xFFFF) if T else (0x8001,):
            C.job("%s_n%X" % (nm.replace(" ", "_"), n), string_case, "%s with CX=%04X" % (nm, n), ins, 0, N, 0x1000, 0x2000, 0x3000, 0x4000, None, True, 6, True, None, n)
    sys.exit(C.run(need=["path_pairs", "programs"]))
