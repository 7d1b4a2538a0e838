"""sim86 checks: guest programs with symbolic register/memory contents run by the real simulator (LLVM IR of sim86.c)
and by the 8086 reference model; everything the guest can observe (DOS output, exit status) must agree."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sx
from sx import var, const, conj, disj, PC, E
from check import Check, Result, viol
REGS = ["AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI"]; SEGS = ["ES", "CS", "SS", "DS"]
OUT = 0x600; DATA = 0x700  # offsets in the guest segment
SEG = 0x2000
JO, JNO, JC, JNC, JZ, JNZ, JNA, JA, JS, JNS, JL, JNL, JNG, JG = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15
def w16(v):
    if isinstance(v, E): return [v.ex(0, 8), v.ex(8, 8)]
    return [v & 255, v >> 8 & 255]
def movr(r, v): return [0xB8 + (REGS.index(r) if isinstance(r, str) else r)] + w16(v)
def setflags(a, b): return movr("AX", a) + [0x3D] + w16(b)
def movs(s, v): return movr("AX", v) + [0x8E, 0xC0 | SEGS.index(s) << 3]
def regs(d, dirty=True):
    """load registers; 'dirty' ones are loaded complemented and then NOTed"""
    o = []
    for r, v in d.items():
        if dirty and r != "SP": o += movr(r, ~v if isinstance(v, E) else ~v & 0xffff) + [0xF7, 0xD0 | REGS.index(r)]
        else: o += movr(r, v)
    return o
def store_regs(segs=False):
    o = []
    for i in range(8): o += [0x2E, 0x89, 0x06 | i << 3] + w16(OUT + 2 * i)
    if segs:
        for i in range(4): o += [0x2E, 0x8C, 0x06 | i << 3] + w16(OUT + 16 + 2 * i)
    return o
def jcc_dump(ccs):
    o = []
    for i, cc in enumerate(ccs): o += [0x70 | cc, 8, 0x2E, 0xC6, 0x06] + w16(OUT + 24 + i) + [ord("N"), 0xEB, 6, 0x2E, 0xC6, 0x06] + w16(OUT + 24 + i) + [ord("T")]
    return o
def finish(dumps, restore=True, code=0):
    o = [0x8C, 0xC8, 0x8E, 0xD8, 0x8E, 0xC0, 0x8E, 0xD0, 0xBC, 0xFE, 0xFF] if restore else []
    for d in dumps:
        seg, off, n = d if len(d) == 3 else (None, *d)
        if seg is not None: o += movs("DS", seg)
        o += [0xB4, 0x40, 0xBB, 1, 0, 0xB9] + w16(n) + [0xBA] + w16(off) + [0xCD, 0x21]
    return o + [0xB8, code, 0x4C, 0xCD, 0x21]
def com(code, data=None, size=0):
    """code at 0x100, data {offset: bytes}"""
    n = max([0x100 + len(code)] + [o + len(b) for o, b in (data or {}).items()] + [size])
    assert 0x100 + len(code) <= OUT
    f = [0x90] * (n - 0x100); f[:len(code)] = code
    for o, b in (data or {}).items(): f[o - 0x100:o - 0x100 + len(b)] = b
    return f
_m = None
def simmod():
    global _m
    if _m is None: _m = sx.Module(sx.tool_bc("sim86"))
    return _m
def psp(tail=b""):
    """DOS program segment prefix as far as the guest may rely on it"""
    p = [0] * 256; p[0:4] = [0xCD, 0x20, 0x00, 0x30]; p[0x80] = len(tail); p[0x81:0x81 + len(tail)] = list(tail); p[0x81 + len(tail)] = 13; return p
def x86job(f, tail=b"", files=None):
    j = sx.XJob(); j.mem(SEG * 16, psp(tail)); j.mem(SEG * 16 + 0x100, f)
    for s in SEGS: j.reg(s, SEG)
    for r in REGS: j.reg(r, 0)
    for x in sx.F: j.flag(x, 0)
    j.reg("SP", 0xfffe)
    for n, b in (files or {}).items(): j.file(n, b)
    return j
class Mismatch(Exception): pass
def compare(res, f, sig, what, pc=None, argv=("t.com",), tail=b"", files=None, allow=None, limit=3, simargs=(), steps=20000, conc=300):
    """run f under the simulator and the reference; add violations to res"""
    m = simmod(); pc = pc or PC()
    allf = {"t.com": f}; allf.update(files or {})
    sps = sx.run_main(m, ["sim86", *simargs, *argv], allf, pc=pc, steps=3000000 if steps <= 20000 else 100000000, conc=conc)
    nv = 0
    for sp in sps:
        res.count("sim_paths")
        xps = x86job(f, tail, files).run(0x100, pc=sp.pc.clone(), steps=steps, conc=conc)
        for xp in xps:
            if xp.st == "DIVZERO": res.count("divide_errors_excluded"); continue
            res.count("path_pairs")
            bad = None; mdl = None
            if xp.st != "EXIT": raise Mismatch("reference ended with %s %s for %s" % (xp.st, xp.msg, what))
            if sp.st != "EXIT":
                if allow and allow(sp): res.count("refused"); continue
                bad = "sim86 ends with %s %s" % (sp.st, sp.msg); mdl = xp.pc.model()
            else:
                so, xo = sp.out(), xp.out(); sc, xc = sx.bits(sp.code, 32).ex(0, 8), sx.bits(xp.code, 32).ex(0, 8)
                if len(so) != len(xo): bad = "output length %d, expected %d; sim86 says: %s" % (len(so), len(xo), bytes(b if isinstance(b, int) else 63 for b in so)[:120]); mdl = xp.pc.model()
                else:
                    d = sc.ne(xc)
                    for a, b in zip(so, xo):
                        if isinstance(a, E) or isinstance(b, E): d = d | sx.bits(a, 8).ne(sx.bits(b, 8))
                        elif a != b: d = sx.true(); break
                    if files is not None:
                        for n in (set(sp.files()) | set(xp.files())) - {"t.com"}:
                            a, b = sp.file(n), xp.file(n)
                            if a is None or b is None or len(a) != len(b): d = sx.true(); bad = "file %s differs in length or existence" % n; break
                            for p, q in zip(a, b):
                                if isinstance(p, E) or isinstance(q, E): d = d | sx.bits(p, 8).ne(sx.bits(q, 8))
                                elif p != q: d = sx.true(); bad = "file %s differs" % n; break
                    mdl = xp.pc.check(d)
                    if mdl is not None: bad = bad or "different output"
            if bad and mdl is not None:
                v = confirm(f, mdl, xp, sp, sig, what, bad, argv, files, simargs)
                if v: res.add(v)
                nv += 1
                if nv >= limit: return
def confirm(f, mdl, xp, sp, sig, what, bad, argv, files, simargs):
    """replay against the natively built simulator"""
    cf = sx.eval_bytes(f, mdl); exp = sx.eval_bytes(xp.out(), mdl); ec = (xp.code.eval(mdl) if isinstance(xp.code, E) else xp.code) & 255
    ff = {"t.com": cf}
    for n, b in (files or {}).items(): ff[n] = sx.eval_bytes(b, mdl)
    args = [sx.eval_bytes(a, mdl).decode("latin1") if not isinstance(a, str) else a for a in argv]
    r = sx.run_native("sim86", list(simargs) + args, ff)
    efiles = {n: sx.eval_bytes(xp.file(n), mdl) for n in xp.files()}
    same = r.rc == ec and r.out == exp and (files is None or all(r.files.get(n) == b for n, b in efiles.items() if n != "t.com"))
    if same:
        r2 = sx.run_native("sim86", list(simargs) + args, ff, asan=True)
        if r2.rc == ec and r2.out == exp: raise Mismatch("counterexample for %s does not reproduce natively (%s)" % (what, bad))
        r = r2
    vals = {k: v for k, v in sx.model_dict(mdl).items() if not k.startswith("u")}
    return viol(sig, "sim86: %s: %s" % (what, bad), "inputs %s\nexpected exit %d output %s\nsim86    exit %s output %s" % ({k: hex(v) for k, v in sorted(vals.items())[:30]}, ec, exp.hex(), r.rc, r.out.hex()), {"t.com": cf, "expected.bin": exp, "actual.bin": r.out})
