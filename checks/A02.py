"""A02: labels, branches and the addresses sas writes for them. Lines and distances are chosen by symbolic bytes, numeric targets have symbolic digits."""
from asmlib import *
class No(Exception): pass
class Finding(Exception): pass
R = lambda n: ("r", n)
def J(op, l, short=False): return (("%s short %s" if short else "%s %s") % (op, l), [("br", op, l, short)])
def IN(text, op, *ops): return (text, [("ins", op, list(ops))])
L = lambda n: ("i", 0, ("L", n))
def M(n, *base): return ("m", 0, None, base, ("L", n))
LINES = {"L1": ("L1:", [("def", "L1")]), "L2": ("L2 :", [("def", "L2")]), ".a": (".a:", [("def", ".a")]), "l1": ("l1:", [("def", "l1")]), "jmp1": J("jmp", "L1"), "jmps2": J("jmp", "L2", True), "jz1": J("jz", "L1"), "call2": J("call", "L2"), "jnc.a": J("jnae", ".a"), "jmp.a": J("JMP", ".a"), "jg2": J("jg", "L2", True), "mov1": IN("mov bx, L1", "mov", R("bx"), L("L1")), "mem2": IN("mov [bp+L2], cx", "mov", M("L2", "bp"), R("cx")), "mem.a": IN("add al, [.a]", "add", R("al"), M(".a")),
    "mem4": IN("cmp word [di+L1+4], L2", "cmp", ("m", 2, None, ("di",), ("L", "L1", 4)), L("L2")), "sub2": IN("sub dx, L2", "sub", R("dx"), L("L2")), "a1": IN("mov [L1-2], al", "mov", ("m", 0, None, (), ("L", "L1", -2)), R("al")), "dw1": ("dw L1, .a", [("dw", "L1"), ("dw", ".a")]), "dw2": ("dw 5, L2, 'ab'", [("b", b"\5\0"), ("dw", "L2"), ("b", b"ab")]), "cbw": ("cbw ; L1:", [("b", b"\x98")]), "db": ("db 'L1:', 10", [("b", b"L1:\n")]), "equ": ("X equ 258", [("equ", "X", 258)]), "movX": IN("mov ax, X", "mov", R("ax"), L("X")), "jmpX": J("jmp", "X"), "memX": IN("mov [si+X], dl", "mov", M("X", "si"), R("dl")), "res": ("resb 3", [("res", 3)]), "same": ("L1: jmp L1", [("def", "L1"), ("br", "jmp", "L1", False)]), "ab": ("dw L11", [("dw", "L11")]), "L11": ("L11:", [("def", "L11")]),
    "lng": ("jmp A_rather_long_label_1", [("br", "jmp", "A_rather_long_label_1", False)]), "lngd": ("A_rather_long_label_2: A_rather_long_label_1:", [("def", "A_rather_long_label_2"), ("def", "A_rather_long_label_1")])}
def walk(f, evs, o, org):
    """follow the events through the output; raises Bad (output is wrong) or No (has to be rejected)"""
    pos = 0; defs = {}; scope = 0; refs = []; equ = {}; addr = org; bss = False; d = Dec(f, o if o is not None else [])
    def key(n): return (n, scope) if n[0] == "." else (n, None)
    for e in evs:
        if e[0] == "def":
            if e[1] in equ: raise No
            k = key(e[1])
            if e[1][0] != ".": scope += 1
            if k in defs: raise No
            defs[k] = addr
        elif e[0] == "equ":
            if e[1] in equ: raise No
            equ[e[1]] = e[2]
        elif e[0] == "res": addr += e[1]; bss = True
        else:
            if bss: raise No
            p0 = d.p
            if e[0] == "b":
                for c in e[1]:
                    if o is None: addr += 1; continue
                    x = d.u8()
                    if x != c: raise Bad("data byte %d is %s" % (d.p - 1, x))
            elif o is None: addr += 2; refs.append((e, None, addr, key(e[-1] if e[0] == "dw" else e[2]) if e[0] in ("dw", "br") else None, dict(equ))); continue
            elif e[0] == "dw": refs.append((e, d.imm16(), 0, key(e[1]), dict(equ)))
            else: ins = d.one(); refs.append((e, ins, addr + d.p - p0, None if e[0] == "ins" else key(e[2]), dict(equ)))
            addr += d.p - p0 if o is not None else 0
            if e[0] == "ins": refs[-1] = refs[-1][:3] + (scope,) + refs[-1][4:]
    cs = []; und = False
    def target(n, sc, eq):
        if isinstance(n, int): return n
        if n in eq: return eq[n]
        if n in equ: raise KeyError # an equ after its use: nothing is claimed but the value
        k = (n, sc) if n[0] == "." else (n, None)
        if k not in defs: raise No
        return defs[k]
    for e, got, nxt, k, eq in refs:
        if e[0] == "dw":
            if e[1] in eq: continue
            t = target(e[1], k[1], eq)
            if got is not None: cs.append(got.eq(c16(t)))
        elif e[0] == "br":
            t = target(e[2], k[1], eq); op = e[1].lower()
            if op[0] == "j" and op != "jmp": op = "j" + SYN.get(op[1:], op[1:])
            if got is None: continue
            if got[0] != op or got[1][0][0] != "rel" or e[3] and got[1][0][1] != 8: raise Bad("%s became %s" % (e[1:], txt(got)))
            cs.append((got[1][0][2] + c16(nxt)).eq(c16(t)))
        else:
            ops = []
            for x in e[2]:
                if x[0] == "i": x = ("i", x[1], c16(target(x[2][1], k, eq)))
                elif x[0] == "m": x = x[:4] + (c16(target(x[4][1], k, eq) + (x[4][2] if len(x[4]) > 2 else 0)),)
                ops.append(x)
            if got is None: continue
            c = match(got, e[1], ops)
            if c is None: raise Bad("%s became %s" % (e[1:], txt(got)))
            cs.append(c)
    if o is not None and d.p != len(o): raise Bad("%d bytes, %d expected" % (len(o), d.p))
    return cs
def check(res, p, src, what, events, org):
    """one path against the reference; events(f) returns the list of events"""
    res.count("paths")
    if not (okpath(p) or rejected(p)): areport(res, "%s" % p.st, "ends with %s %s" % (p.st, p.msg), src, p.pc.model()); return
    def judge(f):
        names, evs = events(f); r = None; late = False
        seen = set()
        for e in evs: # names used before their equ aren't covered, whatever is done about them
            if e[0] == "equ" and e[1] in seen: late = True
            if e[0] in ("dw",): seen.add(e[1])
            if e[0] == "dw" and any(x[0] == "equ" and x[1] == e[1] for x in evs): late = True
            if e[0] == "br": seen.add(e[2])
            if e[0] == "ins": seen |= {x[2][1] for x in e[2] if x[0] == "i"} | {x[4][1] for x in e[2] if x[0] == "m"}
        if late: return None
        try:
            cs = walk(f, evs, p.file("p.com") if okpath(p) else None, org)
            if okpath(p):
                m = f.pc.check(~conj(cs)) if cs else None
                if m is not None: return names, "an address is wrong in output %s" % bytes(x if isinstance(x, int) else x.eval(m) for x in p.file("p.com"))[:60].hex(), m
            else: return names, "rejected", None
        except No:
            if okpath(p): return names, "accepted with an undefined or doubly defined name", None
        except Bad as e: return names, str(e), None
        except KeyError: pass
    for q, r in forks(p.pc, judge):
        res.count("programs"); res.count("accepted" if okpath(p) else "rejected")
        if r: areport(res, "%s: %s" % (what, r[0]), r[1], src, r[2] or q.model()); return
def case(pre, opts, k, post):
    res = Result(); sels = [B("line%d" % i) for i in range(k)]; pc = PC()
    for s in sels: pc.assume(s.ult(len(opts)))
    T = lambda n: (LINES[n][0] + "\n").encode()
    src = flat("org 0x100\n", *[T(n) for n in pre])
    for s in sels: src += pad(s, [T(n) for n in opts])
    src += flat(*[T(n) for n in post]); res.sample({"prefix": list(pre), "choices": list(opts), "symbolic_lines": k, "suffix": list(post)})
    for p in sasrun(src, pc):
        def events(f):
            ns = list(pre) + [opts[choose(f, s, len(opts))] for s in sels] + list(post)
            return " / ".join(ns), sum((LINES[n][1] for n in ns), [])
        check(res, p, src, "lines", events, 0x100)
        if len(res.viols) > 5: break
    return res
DIST = [0, 1, 2, 60] + list(range(120, 132)) + [252, 253, 254, 255, 256, 258, 300]
def dist(op, short, back, pre, big):
    """a branch over a symbolic distance, forwards or backwards"""
    res = Result(); s = B("distance"); pc = PC(); ds = DIST + ([32760, 33000] if 0 else [])
    pc.assume(s.ult(len(ds))); fill = lambda n: (" db " + ", ".join("'" + "x" * min(100, n - i) + "'" for i in range(0, n, 100)) if n else " ").encode()
    br = flat(("%s short T" if short else "%s T") % op, "\n"); F = pad(s, [fill(n) for n in ds]) + [10]
    src = flat("org 0x%x\n" % pre, *(["T:\n", F, br] if back else [br, F, "T:\n"]), "cbw\n"); res.sample({"branch": op, "short": short, "backwards": back, "distances": ds, "origin": pre})
    for p in sasrun(src, pc):
        res.count("paths")
        def judge(f):
            n = ds[choose(f, s, len(ds))]; what = "%s%s %s over %d bytes" % (op, " short" if short else "", "back" if back else "ahead", n)
            cc = op != "jmp" and op != "call"; ln = 2 if cc or short else 3
            rel = -(n + 2) if back else n
            far = (cc or short) and not -128 <= rel <= 127
            if rejected(p): return None if far else (what, "rejected")
            if far: return ("conditional jump to a later label out of range" if cc and not back else what, "%s is accepted" % what)
            o = p.file("p.com"); d = Dec(f, o)
            try:
                if back: d.p += n
                ins = d.one(); nxt = d.p; o_ = {"jmp": "jmp", "call": "call"}.get(op, "j" + SYN.get(op[1:], op[1:]))
                if ins[0] != o_ or ins[1][0][0] != "rel" or short and ins[1][0][1] != 8: raise Bad("became " + txt(ins))
                tgt = 0 if back else nxt + n
                if not back: d.p += n
                if d.u8() != 0x98 or d.p != len(o): raise Bad("%d bytes of output" % len(o))
                if f.pc.check((ins[1][0][2] + c16(nxt)).ne(c16(tgt))) is not None: raise Bad("the target is wrong: " + txt(ins))
            except Bad as e: return what, str(e)
        for q, r in forks(p.pc, judge):
            res.count("programs"); res.count("accepted" if okpath(p) else "rejected")
            if r and not any(v["sig"] == r[0] for v in res.viols): areport(res, r[0], r[1], src, q.model())
        if len(res.viols) > 5: break
    return res
def number(op, short, org, sign=""):
    """a branch to a number at a symbolic origin"""
    res = Result(); pc = PC(); ds = [[B("%s%d" % (n, i)) for i in range(5)] for n in "t"]; vs = [const(org, 32)]
    for d in ds:
        v = const(0, 32)
        for x in d: pc.assume(inset(x, [(48, 57)])); v = v * const(10, 32) + (x.zx(32) - const(48, 32))
        pc.assume(v.ule(65535)); vs.append(v)
    src = flat("org %d" % org, "\n%s%s " % (op, " short" if short else ""), sign, ds[0], "\ncbw"); cc = op not in ("jmp", "call"); org_ = org; org, t = vs; t = -t if sign else t; res.sample({"branch": op, "short": short, "origin": org_, "target": sign + "0..65535"})
    for p in sasrun(src, pc):
        res.count("paths")
        def judge(f):
            if not (okpath(p) or rejected(p)): return "ends with %s" % p.st
            rel = (t - org - const(2, 32)).ex(0, 16); far = ~(rel.sle(127) & rel.sge(-128 & 0xffff)) if cc or short else sx.false()
            if rejected(p): return "rejected" if f.dec(~far) else None
            if f.dec(far): return "accepted"
            o = p.file("p.com"); d = Dec(f, o)
            try:
                ins = d.one(); o_ = {"jmp": "jmp", "call": "call"}.get(op, "j" + SYN.get(op[1:], op[1:]))
                if ins[0] != o_ or ins[1][0][0] != "rel" or short and ins[1][0][1] != 8: raise Bad("became " + txt(ins))
                if f.pc.check((ins[1][0][2] + c16(d.p) + org.ex(0, 16)).ne(t.ex(0, 16))) is not None: raise Bad("the target is wrong: " + txt(ins))
                if d.u8() != 0x98 or d.p != len(o): raise Bad("%d bytes of output" % len(o))
            except Bad as e: return str(e)
        for q, r in forks(p.pc, judge):
            res.count("programs"); res.count("accepted" if okpath(p) else "rejected")
            if r: areport(res, "%s%s number" % (op, " short" if short else ""), r, src, q.model()); return res
    return res
if __name__ == "__main__":
    C = Check("A02", "other", "sas's main executed symbolically (LLVM IR) on programs whose lines, distances and numeric targets are symbolic; every branch, operand and data word that names a label is read back with an independent 8086 decoder and compared with the label's address by the solver", [
        "programs of up to 4 (quick) or 5 (thorough) symbolic lines around fixed ones", "distances of 0 to 300 bytes in programs below 64K", "names that are used before their equ may be rejected", "the host build"])
    mod("sas"); sx.native("sas"); T = C.thorough; k = 5 if T else 4
    for b in (False, True):
        for s in (False, True): C.job("dist:jmp.%d%d" % (b, s), dist, "jmp", s, b, 0x100, 0)
        C.job("dist:call.%d" % b, dist, "call", False, b, 0x7FF0, 0)
        for c in JCC + list(SYN): C.job("dist:j%s.%d" % (c, b), dist, "j" + c, bool(len(c) & 1), b, 0x100, 0)
        C.job("dist:hi.%d" % b, dist, "jz", False, b, 0xFF10, 0); C.job("dist:hj.%d" % b, dist, "jmp", False, b, 0xFF10, 0)
    for op in ("jmp", "call", "jc", "jng"):
        for s in (False, True):
            for o in (0, 256, 300, 0x7FF0, 0x8000, 0xFF7F, 0xFFFE):
                if not (s and op == "call"): C.job("number:%s.%d.%x" % (op, s, o), number, op, s, o)
    for o in (0, 0x100, 0xFFF0): C.job("number:-jmp.%x" % o, number, "jmp", False, o, "-")
    G1 = ["L1", "L2", "jmp1", "jmps2", "jz1", "call2", "mov1", "mem2", "dw2", "cbw"]; G2 = ["L1", ".a", "jmp.a", "jnc.a", "mem.a", "dw1", "db", "L2", "jmp1"]; G3 = ["equ", "movX", "jmpX", "memX", "L1", "mem4", "sub2", "L2", "a1", "res"]; G4 = ["L1", "l1", "L11", "ab", "same", "jmp1", "lng", "lngd", ".a", "res"]
    for n, a, g, b in [("labels", [], G1, []), ("labels2", ["jmp1", "mem2"], G1, ["L2", "L1"]), ("labels3", ["L1"], G1, ["L2"]), ("locals", [], G2, []), ("locals2", ["jmp.a"], G2, ["L2", ".a", "jz1", "L1"]), ("locals3", ["L1", ".a", "cbw"], G2, ["dw2", "L2"]), ("equ", ["equ"], G3, ["L2", "L1"]), ("equ2", [], G3, ["L1", "L2"]), ("names", [], G4, []), ("names2", ["jmp1", "ab"], G4, ["L1", "L11"]), ("names3", ["lng"], G4, ["L1", "lngd"]), ("mem", ["mem4", "a1", "sub2"], ["L1", "L2", "mem4", "a1", "sub2", "mem2", "dw2", "cbw"], ["L1", "L2"]), ("jcc", ["jg2"], ["L1", "L2", "jg2", "jnc.a", "jz1", ".a", "db"], ["L2", ".a", "L1"])]: C.job("lines:" + n, case, a, g, k, b)
    C.bounds = {"symbolic_lines": k, "distances": DIST, "numbers": "0..65535"}
    sys.exit(C.run(need=["programs", "accepted", "rejected"]))
