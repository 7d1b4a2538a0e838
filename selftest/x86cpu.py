"""Validates the 8086 reference (engine/x86.cpp) against the host CPU on random concrete register instructions."""
import sys, os, random, subprocess, struct; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sx
d = sx.tmpdir(); exe = d + "/cpu"; subprocess.run(["gcc", "-O0", "-w", "-fno-stack-protector", "-mno-red-zone", os.path.dirname(os.path.abspath(__file__)) + "/cpu.c", "-o", exe], check=True)
rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1); N = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
CF, PF, AF, ZF, SF, OF = 1, 4, 16, 64, 128, 2048
ALL = CF | PF | AF | ZF | SF | OF
def regs(): return rng.choice([0, 1, 2, 3, 6, 7])  # no sp/bp
def pick():
    b = rng.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff]); return b if rng.random() < .5 else rng.randrange(65536)
def gen():
    k = rng.randrange(16); w = rng.randrange(2)
    rr = lambda: rng.choice([0, 1, 2, 3, 6, 7]) if w else rng.randrange(8)
    mr = lambda op: 0xc0 | op << 3 | rr()
    i8 = lambda: rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
    if k < 4: return [rng.randrange(8) * 8 + rng.choice([0, 2]) + w, 0xc0 | rr() << 3 | rr()], w, ALL
    if k == 4:
        op = rng.randrange(8); u = AF if op in (1, 4, 6) else 0
        return [0x83, mr(op), i8()] if w else [0x80, mr(op), i8()], w, ALL
    if k == 5:
        op = rng.randrange(8); v = pick()
        return ([op * 8 + 5, v & 255, v >> 8] if w else [op * 8 + 4, v & 255]), w, ALL
    if k == 6: return [0x84 + w, 0xc0 | rr() << 3 | rr()], w, ALL
    if k == 7: return [0xfe + w, mr(rng.randrange(2))], w, ALL
    if k == 8: return [0xd0 + w, mr(rng.choice([0, 1, 2, 3, 4, 5, 7]))], w, "sh1"
    if k == 9: return [0xd2 + w, mr(rng.choice([0, 1, 2, 3, 4, 5, 7]))], w, "shc"
    if k == 10: return [0xf6 + w, mr(2)], w, ALL
    if k == 11: return [0xf6 + w, mr(3)], w, ALL
    if k == 12: return [0xf6 + w, mr(rng.choice([4, 5]))], w, CF | OF
    if k == 13: return [0xf6 + w, mr(rng.choice([6, 7]))], w, 0
    if k == 14: return rng.choice([([0x98], 1, ALL), ([0x99], 1, ALL), ([0xf8], 0, ALL), ([0xf9], 0, ALL), ([0xf5], 0, ALL), ([0x9f], 0, ALL)])
    if k == 15: return [0x86 + w, 0xc0 | rr() << 3 | rr()], w, ALL
cases = []
for _ in range(N):
    code, w, und = gen(); v = [pick() for _ in range(6)]; f = rng.getrandbits(16) & ALL | 2
    if und == "shc":
        v[2] = (v[2] & 0xff00) | rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31])  # CL
    cases.append((code, w, und, v, f))
inp = b""
for code, w, und, v, f in cases:
    c = ([0x66] if w else []) + code; inp += bytes([len(c)] + c + [0] * (15 - len(c))) + struct.pack("<7H", v[0], v[1], v[2], v[3], v[4], v[5], f)
out = subprocess.run([exe], input=inp, stdout=subprocess.PIPE).stdout
assert len(out) == 16 * N, (len(out), N)
bad = 0
for i, (code, w, und, v, f) in enumerate(cases):
    o = struct.unpack("<8H", out[16 * i:16 * i + 16])
    j = sx.XJob(); j.mem(0x20100, code + [0xf4])
    for s in ("CS", "DS", "ES", "SS"): j.reg(s, 0x2000)
    for n, x in zip(("AX", "BX", "CX", "DX", "SI", "DI"), v): j.reg(n, x)
    j.reg("SP", 0xfffe); j.reg("BP", 0)
    fb = dict(CF=0, PF=2, AF=4, ZF=6, SF=7, OF=11)
    for n, b in fb.items(): j.flag(n, f >> b & 1)
    p = j.run(0x100)
    assert len(p) == 1; p = p[0]
    if p.st == "DIVZERO":
        if o[0]: bad += 1; print("div", code, v)
        continue
    if not o[0]:
        # -128/-32768 quotients trap on 8086 only
        bad += 1; print("cpu trapped, model not", [hex(c) for c in code], [hex(x) for x in v], p.st); continue
    got = [p.reg(sx.R[n]).val for n in ("AX", "BX", "CX", "DX", "SI", "DI")]
    if code == [0x9f]: pass
    mask = ALL
    if und == "sh1" or und == "shc":
        op = code[1] >> 3 & 7; cnt = 1 if und == "sh1" else v[2] & 255
        mask = ALL & ~AF if op >= 4 else ALL
        if cnt != 1: mask &= ~OF
        if cnt == 0: mask = ALL
        if op < 4 and op >= 2 and cnt > 15: mask &= ~0
        if op >= 4 and op != 7 and cnt > (16 if w else 8): mask &= ~CF
    elif isinstance(und, int): mask = und
    if code[0] in (0x84, 0x85) or (code[0] < 0x40 and (code[0] >> 3) in (1, 4, 6)) or (code[0] in (0x80, 0x83) and (code[1] >> 3 & 7) in (1, 4, 6)): mask &= ~AF
    fl = 0; skip = 0
    for n, b in fb.items():
        x = p.flag(sx.F[n]).val
        if x is None: skip |= 1 << b
        else: fl |= x << b
    exp = list(o[1:7])
    if (fl ^ o[7]) & mask & ~skip or got != exp or (skip & mask):
        bad += 1; print("DIFF", [hex(c) for c in code], "in", [hex(x) for x in v], hex(f), "model", [hex(x) if x is not None else x for x in got], hex(fl), "cpu", [hex(x) for x in exp], hex(o[7]), "mask", hex(mask), "skip", hex(skip))
        if bad > 20: break
print(N, "cases", bad, "bad"); sys.exit(bad > 0)
