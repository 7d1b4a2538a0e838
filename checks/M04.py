from simlib import *
S = lambda n: var(n, 16)
B = lambda n: var(n, 8)
RES = 0x680  # results of the calls: 4 bytes each (AX lo, AX hi, carry, 0)
class G:
    """small guest program recorder; every call's AX and carry are stored"""
    def __init__(self): self.c = []; self.k = 0; self.data = {OUT: [0] * 0x100}
    def emit(self, *b): self.c += list(b); return self
    def note(self, ax=True, axfail=True):
        """store carry, and AX (always, or only when the call failed)"""
        a = RES + 4 * self.k; self.k += 1; c = self.c
        st = [0xA3] + w16(a)
        if ax: c += st
        # carry as a byte; MOV does not change flags
        if not ax: c += [0x73, 3] + st  # JNC over the store of AX
        c += [0x73, 7, 0xC6, 0x06] + w16(a + 2) + [1, 0xEB, 5, 0xC6, 0x06] + w16(a + 2) + [0]
        return self
    def call(self, ah, dx=None, cx=None, bx=None, al=0, note=True, ax=True):
        c = self.c
        if bx is not None: c += ([0x8B, 0x1E] + w16(bx[0]) if isinstance(bx, tuple) else movr("BX", bx))
        if cx is not None: c += movr("CX", cx)
        if dx is not None: c += movr("DX", dx)
        c += movr("AX", al if isinstance(al, int) and False else (ah << 8 | al if isinstance(al, int) else al.zx(16) | ah << 8)) + [0xCD, 0x21]
        if note: self.note(ax)
        return self
    def opened(self, ah, name, var_, al=0):
        self.call(ah, dx=name, cx=0, al=al, note=False)
        self.c += [0xA3] + w16(var_)  # MOV does not change flags
        return self.note(ax=False)
    def done(self, dumps=(), code=0):
        return self.c + finish([(RES, 4 * self.k)] + list(dumps), restore=False, code=code)
def z(s): return [ord(c) if isinstance(c, str) else c for c in s] + [0]
NAME = 0x800; NAME2 = 0x840; BUF = 0x900; H1 = 0x8F0; H2 = 0x8F2
def run(res, name, g, dumps=(), files=None, pc=None, code=0, size=0, **kw):
    res.count("programs"); res.sample(name)
    f = com(g.done(dumps, code), g.data, size)
    compare(res, f, name, name, pc=pc, files=files or {}, limit=1, **kw); return res
def tail_case(lens):
    """start-up state and command tail for arguments of the given lengths, every character symbolic"""
    res = Result(); pc = PC(); argv = ["t.com"]; tail = []
    for i, n in enumerate(lens):
        a = [B("arg%d_%d" % (i, k)) for k in range(n)]
        for x in a: pc.assume(x.ne(0))
        argv.append(a); tail += [32] + a
    code = []
    # SP and the word on the stack, then segments and IP via CALL
    code += [0x2E, 0x89, 0x26] + w16(OUT) + [0x59, 0x2E, 0x89, 0x0E] + w16(OUT + 2)
    for i in range(4): code += [0x2E, 0x8C, 0x06 | i << 3] + w16(OUT + 4 + 2 * i)
    code += [0xE8, 0, 0, 0x58, 0x2E, 0xA3] + w16(OUT + 12)
    code += finish([(OUT, 14), (0, 2), (0x80, 2 + len(tail))], restore=False)
    res.count("programs"); nm = "start-up with %d arguments of lengths %s" % (len(lens), list(lens)); res.sample(nm)
    compare(res, com(code, {OUT: [0] * 32}), nm, nm, pc=pc, argv=tuple(argv), tail=tail, limit=1, conc=300); return res
def longtail(n, ok):
    res = Result(); a = [B("c0")] + [65] * (n - 2) + [B("c1")]; pc = PC(); pc.assume(B("c0").ne(0) & B("c1").ne(0)); nm = "command tail of %d characters" % (n + 1)
    code = finish([(0x80, n + 3 if ok else 1)], restore=False)
    res.count("programs")
    if ok: compare(res, com(code), nm, nm, pc=pc, argv=("t.com", a), tail=[32] + a, limit=1); return res
    for sp in sx.run_main(simmod(), ["sim86", "t.com", a], {"t.com": com(code)}, pc=pc):
        res.count("path_pairs")
        if sp.st != "EXIT" or sx.bits(sp.code, 32).val == 0: res.add(viol(nm, nm + ": not rejected (%s %s)" % (sp.st, sp.msg), "", {"t.com": bytes(com(code))}))
    return res
def exit_case():
    res = Result()
    for kind in ("INT 20h", "AH=4Ch", "AH=4Ch after work", "return to 0"):
        g = G(); c = B("code")
        if kind == "INT 20h": f = [0xCD, 0x20]
        elif kind == "AH=4Ch": f = [0xB0, c, 0xB4, 0x4C, 0xCD, 0x21]
        elif kind == "return to 0": f = movr("AX", S("ax")) + [0xC3]
        else: f = movr("BX", S("bx")) + movr("AX", S("ax")) + [0x01, 0xD8, 0xB4, 0x4C, 0xCD, 0x21]
        res.count("programs"); compare(res, com(f), "exit " + kind, "exit status, " + kind, limit=1)
    return res
def putc_case():
    res = Result(); g = G()
    for i in range(4): g.emit(*movr("DX", S("dx%d" % i)), *movr("AX", 0x0200), 0xCD, 0x21)
    g.emit(*movr("DX", S("dx4")), 0xFE, 0xC2, *movr("AX", 0x0200), 0xCD, 0x21)
    return run(res, "AH=02h console output", g)
def write_case(std):
    """write a symbolic number of symbolic bytes"""
    res = Result(); n = S("n"); pc = PC(); pc.assume(n.ule(6)); g = G(); g.data[NAME] = z("o.txt"); g.data[BUF] = [B("w%d" % i) for i in range(8)]; g.data[H1] = [1 if std else 0, 0]
    if not std: g.opened(0x3C, NAME, H1)
    g.call(0x40, dx=BUF + 1, cx=n, bx=(H1,)); g.call(0x40, dx=BUF, cx=2, bx=(H1,)); g.call(0x40, dx=BUF, cx=0, bx=(H1,))
    if not std: g.call(0x3E, bx=(H1,), ax=False)
    return run(res, "AH=40h write to %s" % ("console" if std else "file"), g, [(BUF, 8)], pc=pc)
def read_case(flen, off):
    """read a symbolic number of bytes twice from a file with symbolic contents"""
    res = Result(); n = S("n"); m = S("m"); pc = PC(); pc.assume(n.ule(flen + 1)); pc.assume(m.ule(3)); g = G(); g.data[NAME] = z("i.txt"); g.data[BUF] = [B("b%d" % i) for i in range(12)]; g.data[H1] = [0, 0]
    g.opened(0x3D, NAME, H1); g.call(0x3F, dx=BUF + off, cx=n, bx=(H1,)); g.call(0x3F, dx=BUF + 6, cx=m, bx=(H1,)); g.call(0x3F, dx=BUF + 1, cx=1, bx=(H1,)); g.call(0x3E, bx=(H1,), ax=False)
    return run(res, "AH=3Fh read from a file of %d bytes" % flen, g, [(BUF, 12)], files={"i.txt": [B("f%d" % i) for i in range(flen)]}, pc=pc)
def missing_case():
    res = Result(); g = G(); g.data[NAME] = z("i.txt"); g.data[NAME2] = z("no.txt"); g.data[H1] = [0] * 4; g.data[BUF] = [7] * 4
    g.opened(0x3D, NAME2, H1); g.opened(0x3D, NAME, H2); g.call(0x3F, dx=BUF, cx=2, bx=(H2,)); g.opened(0x3D, NAME2, H1)
    return run(res, "AH=3Dh with missing and existing files", g, [(BUF, 4)], files={"i.txt": [B("f0"), B("f1"), B("f2")]})
def badhandle_case():
    res = Result(); g = G(); g.data[BUF] = [7] * 4; g.data[NAME] = z("i.txt"); g.data[H1] = [0, 0]
    # carry tells the program that the handle is bad; AX is not compared (sim86 reports 0, not an error code)
    f = g
    def cf():
        a = RES + 4 * g.k; g.k += 1
        g.c += [0x73, 7, 0xC6, 0x06] + w16(a + 2) + [1, 0xEB, 5, 0xC6, 0x06] + w16(a + 2) + [0]
    for h in (0x1234, 0x77):
        g.call(0x3F, dx=BUF, cx=2, bx=h, note=False); cf(); g.call(0x40, dx=BUF, cx=2, bx=h, note=False); cf()
    g.opened(0x3D, NAME, H1); g.call(0x3E, bx=(H1,), ax=False); g.call(0x3F, dx=BUF, cx=2, bx=(H1,), note=False); cf()
    return run(res, "reads and writes with bad or closed handles", g, [(BUF, 4)], files={"i.txt": b"abc"})
def copy_case(n):
    """copy a file with symbolic contents in chunks until read returns 0"""
    res = Result(); g = G(); g.data[NAME] = z("i.txt"); g.data[NAME2] = z("o.txt"); g.data[BUF] = [0] * 8; g.data[H1] = [0] * 4
    g.opened(0x3D, NAME, H1); g.opened(0x3C, NAME2, H2)
    top = len(g.c)
    body = [0x8B, 0x1E] + w16(H1) + movr("CX", 3) + movr("DX", BUF) + movr("AX", 0x3F00) + [0xCD, 0x21, 0x72, 0]
    k = len(body); body += [0x3D, 0, 0, 0x74, 0]; k2 = len(body)
    body += [0x91] + [0x8B, 0x1E] + w16(H2) + movr("AX", 0x4000) + [0xCD, 0x21]
    body += [0xEB, (-(len(body) + 2)) & 255]
    body[k - 1] = len(body) - k; body[k2 - 1] = len(body) - k2
    g.c += body; g.call(0x3E, bx=(H1,), ax=False); g.call(0x3E, bx=(H2,), ax=False)
    return run(res, "copy a file of %d bytes" % n, g, files={"i.txt": [B("f%d" % i) for i in range(n)]})
def create_case(exists):
    res = Result(); g = G(); g.data[NAME] = z([B("nm0"), B("nm1"), ".", "x"]); g.data[H1] = [0, 0]; g.data[BUF] = [B("w0"), B("w1")]
    pc = PC()
    for v in ("nm0", "nm1"): pc.assume(sx.inset(B(v), ["q", "R"]))
    g.opened(0x3C, NAME, H1); g.call(0x40, dx=BUF, cx=2, bx=(H1,)); g.call(0x3E, bx=(H1,), ax=False)
    g.opened(0x3D, NAME, H1); g.call(0x3F, dx=BUF + 1, cx=2, bx=(H1,)); g.call(0x3E, bx=(H1,), ax=False)
    return run(res, "create%s, write, reopen and read" % (" over an existing file" if exists else ""), g, [(BUF, 4)], files={"qq.x": b"0123456", "RR.x": b""} if exists else {}, pc=pc, size=0x920)
def flags_case():
    """a DOS call leaves the other registers alone and sets carry whatever it was before"""
    res = Result(); v = {r: S(r.lower()) for r in ("SI", "DI", "BP")}; g = G(); g.data[NAME] = z("i.txt"); g.data[BUF] = [0] * 4; g.data[H1] = [0, 0]
    g.emit(*regs(v)); g.opened(0x3D, NAME, H1)
    g.emit(*setflags(S("fa"), S("fb"))); g.call(0x3F, dx=BUF, cx=2, bx=(H1,)); g.emit(*store_regs())
    g.emit(*setflags(S("fa"), S("fb"))); g.call(0x40, dx=BUF, cx=2, bx=1); g.emit(*setflags(S("fa"), S("fb"))); g.call(0x3E, bx=(H1,), ax=False)
    return run(res, "registers and carry around DOS calls", g, [(OUT + 4, 2), (OUT + 8, 8)], files={"i.txt": b"abc"})
def safe_case(name, f, files, pc, args=(), conc=600):
    """no guest action makes the simulator touch memory outside its own objects"""
    res = Result(); res.count("programs"); allf = {"t.com": f}; allf.update(files)
    for sp in sx.run_main(simmod(), ["sim86", *args, "t.com"], allf, pc=pc, conc=conc):
        res.count("path_pairs"); res.count("safe_paths")
        if sp.st in ("EXIT",): continue
        mdl = sp.pc.model(); cf = sx.eval_bytes(f, mdl); r = sx.run_native("sim86", [*args, "t.com"], {"t.com": cf, **files}, asan=True)
        if r.rc in (98, 99, None) or (r.rc is not None and r.rc < 0): res.add(viol(name, "sim86: %s: %s %s" % (name, sp.st, sp.msg), r.out[-1500:].decode(errors="replace"), {"t.com": cf})); return res
        raise Mismatch("%s: %s %s does not reproduce (%s)" % (name, sp.st, sp.msg, r.rc))
    return res
def safety(kind):
    pc = PC(); d = S("d").ex(0, 8)
    if kind.startswith("name"):
        n = int(kind[4:]); g = G(); g.data[NAME] = [B("c")] + [66] * (n - 1) + [0]; g.call(0x3D, dx=NAME, note=False); return safe_case("opening a file name of %d characters" % n, com(g.done(), g.data), {}, pc, ["-v"])
    seg, op = kind.split(":"); seg = int(seg, 16); op = int(op, 16)
    g = G(); g.data[NAME] = z("i.txt"); g.data[H1] = [0, 0]; g.opened(0x3D, NAME, H1)
    g.emit(0x8B, 0x1E, *w16(H1)) if op == 0x3F else g.emit(*movr("BX", 1))
    dx = var("dlow", 8).zx(16) + const(0xFF80, 16)
    g.emit(*movs("DS", seg), *movr("CX", var("cnt", 8).zx(16) + const(0xFF00 if op == 0x3F else 0, 16)), *movr("DX", dx), *movr("AX", op << 8), 0xCD, 0x21, 0x8C, 0xC8, 0x8E, 0xD8)
    pc.assume(sx.inset(var("cnt", 8), [0, 1, 2, 127, 128, 255])); pc.assume(sx.inset(var("dlow", 8), [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff]) if op == 0x40 else sx.inset(var("dlow", 8), [0, 0x70, 0x7f, 0x80]))
    return safe_case("AH=%02Xh at the end of memory, segment %04X" % (op, seg), com(g.done(), g.data), {"i.txt": bytes(200)}, pc)
if __name__ == "__main__":
    C = Check("M04", "other", "symbolic execution of sim86's LLVM IR against a symbolic 8086/DOS model (SMT, QF_BV)", [
        "handle numbers and the error code of a failed read or write are not compared", "guest file names of at most 63 characters", "access mode AL of AH=3Dh and attributes CX of AH=3Ch are 0", "writes of zero bytes do not truncate"])
    T = C.thorough; C.bounds = {"arguments": "0..3 with 0..%d symbolic characters, and tails of 2..126 characters" % (6 if T else 3), "files": "0..%d symbolic bytes" % (10 if T else 6), "transfer_count": "symbolic up to file size + 1"}
    sx.tool_bc("sim86"); sx.native("sim86"); sx.native("sim86", True)
    L = [(), (1,), (3,), (1, 2), (0,), (2, 0), (0, 1), (1, 1, 1)] + ([(6,), (5, 4), (2, 3, 4), (1, 0, 1), (0, 0, 0)] if T else [])
    for l in L: C.job("tail%s" % (l,), tail_case, l)
    for n in (40, 80, 124): C.job("longtail%d" % n, longtail, n, True)
    for n in (126, 127, 128, 200): C.job("longtail%d" % n, longtail, n, False)
    C.job("exit", exit_case); C.job("putc", putc_case); C.job("missing", missing_case); C.job("badhandle", badhandle_case); C.job("flags", flags_case)
    for s in (0, 1): C.job("write%d" % s, write_case, s); C.job("create%d" % s, create_case, s)
    for n in (0, 1, 2, 5) + ((10,) if T else ()): C.job("read%d" % n, read_case, n, 0); C.job("copy%d" % n, copy_case, n)
    for n in (3, 4, 6, 7, 12): C.job("copy%d" % n, copy_case, n)
    for n in (1, 12, 62, 63, 64, 65, 200): C.job("name%d" % n, safety, "name%d" % n)
    for s in ("F000", "FFF0", "FFFF", "F008"):
        for o in ("3F", "40"): C.job("end%s_%s" % (s, o), safety, s + ":" + o)
    sys.exit(C.run(need=["path_pairs", "programs", "safe_paths"]))
