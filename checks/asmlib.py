"""sas checks: sas's main (LLVM IR) executed symbolically on sources with symbolic operands and digits; the emitted bytes are read back by a
decoder written from the 8086 instruction set tables and compared with the written statement under the path condition."""
from pplib import *
from sx import bits
R8 = ["al", "cl", "dl", "bl", "ah", "ch", "dh", "bh"]; R16 = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"]; SR = ["es", "cs", "ss", "ds"]
RM = [("bx", "si"), ("bx", "di"), ("bp", "si"), ("bp", "di"), ("si",), ("di",), ("bp",), ("bx",)]
ALU = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"]; ROT = ["rol", "ror", "rcl", "rcr", "shl", "shr", None, "sar"]; G3 = ["test", None, "not", "neg", "mul", "imul", "div", "idiv"]
JCC = ["o", "no", "c", "nc", "z", "nz", "na", "a", "s", "ns", "pe", "po", "l", "nl", "ng", "g"]
SYN = {"b": "c", "nae": "c", "nb": "nc", "ae": "nc", "e": "z", "ne": "nz", "be": "na", "nbe": "a", "nge": "l", "ge": "nl", "le": "ng", "nle": "g"}
PLAINOP = {0x98: "cbw", 0x99: "cwd", 0xA4: "movsb", 0xA5: "movsw", 0xA6: "cmpsb", 0xA7: "cmpsw", 0xAA: "stosb", 0xAB: "stosw", 0xAC: "lodsb", 0xAD: "lodsw", 0xAE: "scasb", 0xAF: "scasw", 0xC3: "ret", 0xF2: "repne", 0xF3: "rep", 0xF4: "hlt", 0xF5: "cmc", 0xF8: "clc", 0xF9: "stc", 0xFA: "cli", 0xFB: "sti", 0xFC: "cld", 0xFD: "std", 0xC9: "leave", 0x9C: "pushf", 0x9D: "popf", 0xCF: "iret"}
class Bad(Exception): pass
def c16(v): return const(v & 0xffff, 16)
def x16(e): return c16(e) if isinstance(e, int) else e
class Dec:
    """decoder over a list of bytes, some of them symbolic; opcode and ModRM bytes are decided through the fork"""
    def __init__(self, f, bs, pos=0): self.f = f; self.b = bs; self.p = pos
    def raw(self):
        if self.p >= len(self.b): raise Bad("the output ends inside the instruction")
        self.p += 1; return self.b[self.p - 1]
    def u8(self):
        v = self.raw()
        if isinstance(v, int): return v
        if v.val is not None: return v.val
        while True:
            k = v.eval(self.f.pc.model())
            if self.f.dec(v.eq(k)): return k
    def b8(self): return bits(self.raw(), 8)
    def imm8(self): return self.b8().zx(16)
    def simm8(self): return self.b8().sx(16)
    def imm16(self): lo = self.b8(); return self.b8().cat(lo)
    def modrm(self, size, seg=None):
        m = self.u8(); mod, r, rm = m >> 6, m >> 3 & 7, m & 7
        if mod == 3: return r, ("r", (R8 if size == 1 else R16)[rm])
        if mod == 0 and rm == 6: return r, ("m", size, seg, (), self.imm16())
        d = c16(0) if mod == 0 else self.simm8() if mod == 1 else self.imm16()
        return r, ("m", size, seg, RM[rm], d)
    def one(self):
        """(mnemonic, operands); branch targets are relative to the byte after the instruction"""
        seg = None; op = self.u8()
        if op & 0xE7 == 0x26: seg = SR[op >> 3 & 3]; op = self.u8()
        r = self._one(op, seg)
        if seg and not any(o[0] == "m" for o in r[1]): raise Bad("segment prefix without a memory operand")
        return r
    def _one(self, op, seg):
        sz = 2 if op & 1 else 1; reg = lambda n, s: ("r", (R8 if s == 1 else R16)[n])
        imm = lambda: ("i", 2, self.imm16()) if sz == 2 else ("i", 1, self.imm8())
        if op < 0x40:
            a = ALU[op >> 3]; k = op & 7
            if k < 4: r, m = self.modrm(sz, seg); return a, [m, reg(r, sz)] if k < 2 else [reg(r, sz), m]
            if k < 6: return a, [reg(0, sz), imm()]
            if op in (0x06, 0x0E, 0x16, 0x1E): return "push", [("s", SR[op >> 3])]
            if op in (0x07, 0x0F, 0x17, 0x1F): return "pop", [("s", SR[op >> 3])]
            raise Bad("opcode %02x" % op)
        if op < 0x48: return "inc", [reg(op & 7, 2)]
        if op < 0x50: return "dec", [reg(op & 7, 2)]
        if op < 0x58: return "push", [reg(op & 7, 2)]
        if op < 0x60: return "pop", [reg(op & 7, 2)]
        if 0x70 <= op < 0x80: return "j" + JCC[op & 15], [("rel", 8, self.simm8())]
        if 0x80 <= op < 0x84: r, m = self.modrm(sz, seg); return ALU[r], [m, ("i", 2, self.simm8()) if op == 0x83 else imm()]
        if op in (0x84, 0x85): r, m = self.modrm(sz, seg); return "test", [m, reg(r, sz)]
        if op in (0x86, 0x87): r, m = self.modrm(sz, seg); return "xchg", [reg(r, sz), m]
        if 0x88 <= op < 0x8C: r, m = self.modrm(sz, seg); return "mov", [m, reg(r, sz)] if op < 0x8A else [reg(r, sz), m]
        if op in (0x8C, 0x8E):
            r, m = self.modrm(2, seg)
            if r > 3: raise Bad("no segment register %d" % r)
            return "mov", [m, ("s", SR[r])] if op == 0x8C else [("s", SR[r]), m]
        if op == 0x8D:
            r, m = self.modrm(0, seg)
            if m[0] != "m": raise Bad("lea of a register")
            return "lea", [reg(r, 2), m]
        if 0x90 <= op < 0x98: return "xchg", [reg(0, 2), reg(op & 7, 2)]
        if op in PLAINOP: return PLAINOP[op], []
        if 0xA0 <= op < 0xA4: m = ("m", sz, seg, (), self.imm16()); return "mov", [reg(0, sz), m] if op < 0xA2 else [m, reg(0, sz)]
        if op in (0xA8, 0xA9): return "test", [reg(0, sz), imm()]
        if 0xB0 <= op < 0xC0: s = 1 if op < 0xB8 else 2; return "mov", [reg(op & 7, s), ("i", 2, self.imm16()) if s == 2 else ("i", 1, self.imm8())]
        if op in (0xC6, 0xC7):
            r, m = self.modrm(sz, seg)
            if r: raise Bad("C6 /%d" % r)
            return "mov", [m, imm()]
        if op == 0xCD: return "int", [("i", 1, self.imm8())]
        if 0xD0 <= op < 0xD4:
            r, m = self.modrm(sz, seg)
            if not ROT[r]: raise Bad("D0 /%d" % r)
            return ROT[r], [m, ("i", 1, c16(1)) if op < 0xD2 else ("r", "cl")]
        if op == 0xE8: return "call", [("rel", 16, self.imm16())]
        if op == 0xE9: return "jmp", [("rel", 16, self.imm16())]
        if op == 0xEB: return "jmp", [("rel", 8, self.simm8())]
        if op in (0xF6, 0xF7):
            r, m = self.modrm(sz, seg)
            if not G3[r]: raise Bad("F6 /%d" % r)
            return (G3[r], [m, imm()]) if r == 0 else (G3[r], [m])
        if op in (0xFE, 0xFF):
            r, m = self.modrm(sz, seg)
            if r < 2: return ("inc", "dec")[r], [m]
            if op == 0xFF and r in (2, 4, 6): return ("call", "jmp", "push")[(2, 4, 6).index(r)], [m]
            raise Bad("%02x /%d" % (op, r))
        raise Bad("opcode %02x" % op)
def same(a, b):
    """condition under which the decoded operand a is the written operand b (None: never)"""
    if a[0] != b[0]: return None
    if a[0] in "rs": return sx.true() if a[1] == b[1] else None
    if a[0] == "i": return (a[2].eq(x16(b[2])) if a[1] == 2 else (a[2] & c16(255)).eq(x16(b[2]) & c16(255)))
    if a[0] == "m":
        if a[2] != b[2] or set(a[3]) != set(b[3]) or a[1] and b[1] and a[1] != b[1]: return None
        return a[4].eq(x16(b[4]))
    return None
def match(dec, op, ops):
    """condition under which the decoded instruction is op ops (None: never)"""
    if dec[0] != op or len(dec[1]) != len(ops): return None
    def al(x, y):
        cs = [same(p, q) for p, q in zip(x, y)]
        return None if any(c is None for c in cs) else conj(cs)
    c = al(dec[1], ops)
    if c is None and op in ("xchg",): c = al(dec[1][::-1], ops)
    return c
def txt(d):
    def o(x): return x[1] if x[0] in "rs" else str(x[2]) if x[0] == "i" else "%s%s[%s+%s]" % ({0: "", 1: "byte ", 2: "word "}[x[1]], x[2] + ":" if x[2] else "", "+".join(x[3]), x[4]) if x[0] == "m" else "rel%d %s" % (x[1], x[2])
    return d[0] + " " + ", ".join(o(x) for x in d[1])
def choose(f, sel, n):
    while True:
        k = sel.eval(f.pc.model()) if sel.val is None else sel.val
        if f.dec(sel.eq(k)): return k
def sasrun(src, pc, **kw): return sx.run_main(mod("sas"), ["sas", "p.asm", "p.com"], {"p.asm": src}, pc=pc, **dict(dict(paths=2000000, steps=3000000, time_=700, rng=1100, conc=300), **kw))
def areport(res, sig, why, src, mdl, asan=False):
    text = conc(src, mdl); r = sx.run_native("sas", ["p.asm", "p.com"], {"p.asm": text}, asan=asan); o = r.files.get("p.com")
    res.count("disagreements"); res.add(viol(sig, "%s: %s" % (sig, why), "%s\nsource: %r\nthe natively built sas exits with %s, prints %r, output %s" % (why, text[:3000], r.rc, r.out[-300:], o.hex() if o is not None else None), {"p.asm": text}))
