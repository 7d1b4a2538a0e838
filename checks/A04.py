"""A04: sas on arbitrary input: windows of free bytes and of freely chosen tokens, and sources around every internal limit. Every path must end
with an exit status, without a memory error and within the step bound; what is accepted next to a limit must be complete."""
from asmlib import *
def judge(res, p, src, what, exp=None):
    res.count("paths"); why = None
    if p.st not in ("EXIT", "ABORT", "ASSERT"): why = "ends with %s %s" % (p.st, p.msg)
    elif rejected(p): res.count("rejected")
    else:
        res.count("accepted"); o = p.file("p.com")
        if o is None: why = "exits with 0 without an output file"
        elif exp is not None:
            for q, e in forks(p.pc, exp):
                if e is None: continue
                m = differs(q, o, e)
                if m is not None: areport(res, what, "accepted, the output has %d bytes instead of %d or differs" % (len(o), len(e)), src, m); return
    if why: areport(res, "%s: %s" % (what, re.sub(r"0x[0-9a-f]+|\d+", "#", why)[:90]), why, src, p.pc.model(), asan=True)
def win(name, a, vals, b, steps=400000):
    """free bytes (each from a set of values) between a and b"""
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals):
        if len(s) < 256: pc.assume(inset(v, s))
    src = flat(a, vs, b); res.count("sources"); res.sample({"before": a[-80:], "free_bytes": len(vals), "after": b[:80]})
    for p in sasrun(src, pc, steps=steps):
        judge(res, p, src, name)
        if len(res.viols) > 3: break
    return res
def toks(name, a, alpha, k, b):
    """k freely chosen tokens between a and b"""
    res = Result(); sels = [B("tok%d" % i) for i in range(k)]; pc = PC(); src = flat(a)
    for s in sels: pc.assume(s.ult(len(alpha))); src += pad(s, [t.encode() for t in alpha])
    src += flat(b); res.count("sources"); res.sample({"before": a[-80:], "token_choices": list(alpha), "tokens": k, "after": b[:80]})
    for p in sasrun(src, pc, steps=400000):
        judge(res, p, src, name)
        if len(res.viols) > 3: break
    return res
def limit(name, a, unit, n, vals, b, expf=None, steps=20000000):
    """n repetitions of unit, then free bytes from vals: the limit is crossed or not depending on them"""
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals): pc.assume(inset(v, [ord(c) for c in s]))
    body = "".join(unit(i) for i in range(n)) if callable(unit) else unit * n
    src = flat(a, body, vs, b); res.count("sources"); res.sample({"limit": name, "repetitions": n, "free_bytes": len(vals)})
    def exp(f):
        ch = [next(c for k, c in enumerate(s) if k == len(s) - 1 or f.dec(v.eq(ord(c)))) for v, s in zip(vs, vals)]
        return expf(n, "".join(ch))
    for p in sasrun(src, pc, steps=steps):
        judge(res, p, src, "%s, %d" % (name, n), exp if expf else None)
        if len(res.viols) > 3: break
    return res
TOKS = [" mov ", " ax", " al", " cl", " cs", ",", " [", "]", "bx", "+", "-", " 1", " 'a'", " byte", " x", ":", "\n", " jmp", " short", " bp", "~", " add ", " es", "w"]
TOKO = [" ax", " bl", " ds", ",", "[", "]", "+", "-", "si", "bp", "bx", "2", "'ab'", "''", " word", " byte", " L", " N", "ss", ":", "~", "<<", "|", "\n"]
TOKD = ["db", "dw", " 1", " 'abc'", ",", "+", "<<", "-", "~", "|", " N", " L", " equ", "\norg", "\nresb", "\nresw", " 65535", "\nM", ":", "\ncpu 8086", "\n", ";", " F", "''"]
TOKI = ["\n" + m + " " for m in ("call", "inc", "push", "pop", "mul", "not", "int", "lea", "xchg", "test", "shl", "rep", "jz", "movsb", "sbb", "idiv")] + [" ax", " L", ",", "[si]", " 1", " word", " cs", " cl"]
if __name__ == "__main__":
    C = Check("A04", "other", "sas's main executed symbolically (LLVM IR, every memory access checked against its object) on sources with windows of free bytes and tokens and on sources around each internal limit; no path may end in a memory error or exceed the step bound", [
        "windows of 2 to 4 bytes (all 256 values or the stated classes) and 3 to 4 tokens in fixed contexts", "limits are approached with symbolic lengths from both sides", "memory objects: variables, arrays and structures as wholes; an index that stays inside the same structure isn't seen as an error", "file names of fixed length; the host build"])
    mod("sas"); sx.native("sas"); sx.native("sas", asan=True); T = C.thorough; A = list(range(256)); N = 3 if T else 2
    CT = {"start": ("", "\n"), "line": ("cbw\n", "\nret\n"), "end": ("cbw\n", ""), "mnemonic": (" m", " ax, 1\n"), "op1": (" mov ", ",ax\n"), "op2": ("mov ax,", "\n"), "mem": ("N equ 1\nmov ax,[", "]\nL:"), "memend": ("mov ax,[bx+", ""), "size": ("inc ", " [bx]\n"), "str": ("db 'a", "',1\n"), "strend": ("dw 1, '", ""), "num": ("db 1", ",2\n"), "hex": ("mov ax, 0x", "\n"), "list": ("dw 1", " 2, L\nL:"),
          "label": ("L", " db 1\njmp L\n"), "label2": ("jmp L", "\nL: \n"), "equ": ("N", " 5\n dw N\n"), "org": ("org", " 5\nL: dw L\n"), "res": ("L: db 1\nresb ", "\n M: \n"), "resval": ("resb 1", "\n"), "cpu": ("cpu ", "\nret\n"), "rep": ("rep ", "\nret\n"), "jmp": ("jmp ", "\nL: ret\n"), "jcc": ("j", " L\nL: ret\n"), "comment": ("; x", "\nret\n"), "expr": ("mov ax, 1 ", " 2\n"), "int": ("int ", "\n"), "shift": ("shl ax, ", "\n"), "un": ("mov ax, ", "1\n"), "seg": ("mov [", ":bx], al\n")}
    CLS = list(b"\0\t\n\r ;:,'[]+-|~<>09axAXxzZ_.$@\x7f\x80\xff")
    for n, (a, b) in CT.items():
        C.job("bytes:" + n, win, "bytes in " + n, a, [A, A, CLS] if T else [A, list(b"\n :'[-0a\0")], b); C.job("bytes3:" + n, win, "bytes in " + n, a, [CLS] * (N + 1) if T else [list(b"\n ;:,'[]+-<0aL\0")] * 3, b)
    for n, a, b in [("line", "", "\n"), ("lineend", "x: ", ""), ("after", "mov ax, bx\n", "\nx: w:")]: C.job("toks:" + n, toks, "tokens in " + n, a, TOKS, 4 if T else 3, b)
    for m in ("mov", "add", "test", "lea", "shl", "xchg", "push", "pop", "call", "inc", "mul", "not", "int", "jmp", "jz"): C.job("toko:" + m, toks, "operands of " + m, "N equ 7\nL: " + m + " ", TOKO, 3 if T or m == "mov" else 2, "\n"); C.job("tokm:" + m, toks, "second operand of " + m, "N equ 7\nL: " + m + " bx,", TOKO, 3 if T or m in ("mov", "add") else 2, "\n")
    C.job("tokmem", toks, "memory operand", "N equ 7\nL: mov cl, [", TOKO, 4 if T else 3, "]\n")
    for n, a, b in [("data", "N equ 7\n", "\nL: F:"), ("dataend", "L: N equ 7\ndb 1", ""), ("dw", "N equ 7\n L: dw ", "\n")]: C.job("tokd:" + n, toks, "tokens in " + n, a, TOKD, 4 if T else 3, b)
    C.job("toki", toks, "instructions", "L:", TOKI, 4 if T else 3, "\n"); C.job("tokiend", toks, "instructions", "L:", TOKI, 3, "")
    def L(*a, **k): C.job("limit:%s.%d" % (a[0], a[3]), lambda: limit(*a, **k))
    le = lambda v: [v & 255, v >> 8]
    for n in (34, 35, 36, 37, 38, 39, 40, 41, 60, 128, 600): L("identifier", "", "a", n, ["a: "] * 4, ": ret\n"); L("identifier used", "jmp L\n", "Z", n, ["Z, "] * 3, "\nL:"); L("identifier undefined", "L: jmp ", "y", n, ["y1\n"] * 3, "\n")
    for n in (122, 124, 125, 126, 127, 128, 129, 300, 1000): L("string", "db '", "s", n, ["s'"] * 3, "'\n", lambda n, w: list(b"s" * n + w[:w.index("'")].encode()) if w.endswith("'") is False and "'" in w and w.count("'") % 2 == 1 and False else None); L("string open", "dw '", "s", n, ["s\n'"] * 3, ""); L("string as number", "mov ax, '", "s", n, ["s'", "'"], "\n"); L("string as name", "'", "s", n, ["s'", "'"], " 5\n")
    for n in (120, 126, 127, 128): L("string exact", "db '", "s", n, ["st", "uv"], "', 9\n", lambda n, w: list(b"s" * n + w.encode() + b"\t"))
    for n in (40, 200, 3000): L("number", "mov ax, ", "9", n, ["9x "] * 2, "\n"); L("hex number", "mov ax, 0x", "F", n, ["Fg "] * 2, "\n"); L("comment", "ret ;", "c", n, ["c\n'", "ab"], "\nret\n"); L("blanks", "ret", " ", n, [" \n\t"] * 2, "ret", lambda n, w: [0xC3, 0xC3])
    used = 512 - 12 # more names than fit
    for n in (440, 470, 480, 485, 490, 495, 500, 505, 510, 515, 540, 700): L("identifiers", "", lambda i: "a%d:" % i, n, [":;", "; "], "b: ret ; c: d: e: f:\nret")
    for n in (480, 488, 489, 490, 491, 492, 493, 494, 495, 496): L("identifiers one by one", "", lambda i: "a%d:" % i, n, ["b;"], " c: d:\nret\n")
    for n in (100, 110, 115, 116, 117, 118, 119, 120, 121, 122, 123, 130, 200): L("identifier text", "", lambda i: "a%s%03d:\n" % ("x" * 34, i), n, [";a"], "bcd: ret\n")
    for n in (590, 596, 598, 599, 600, 601, 602, 640, 1200): L("fixups", "", "jmp L\n", n, [";j"], "mp L\nL: ret\n"); L("fixups word", "L0: dw L", ",L", n, [",;"], " L\nL: ret\n", lambda n, w: (le(2 * (n + 1 + (w == ","))) * (n + 1 + (w == ","))) + [0xC3])
    for n in (300, 599, 600, 601): L("fixups of several", "", lambda i: "jmp L%d\n" % (i % 7), n, [";j"], "mp L1\n" + "".join("L%d: ret\n" % i for i in range(7))); L("fixups undefined", "", "jmp L\n", n, ["LM"], ": ret\n")
    for n in (600, 601, 620, 624, 625, 626): L("output", "org 5\n", "db '0123456789abcdef0123456789abcdef'\n", n, [";d"] * 1, "b 1\n", lambda n, w: list(b"0123456789abcdef0123456789abcdef" * n) + ([1] if w == "d" else [])); L("output words", "", "dw 'abcdefghijklmnopqrstuvwxyz012345'\n", n, [";d"], "w 1,2\n")
    for n in (623, 624): L("output instructions", "", "db '0123456789abcdef0123456789abcdef'\n", n, [";c"], "bw\n" + "mov word [0x1234], 0x4567\n" * 6); L("output jumps", "L: ", "db '0123456789abcdef0123456789abcdef'\n", n, [";c"], "bw\n" + "jmp L\n" * 11)
    for v in (0, 1, 254, 255, 256, 4096, 65535): L("reserve", "db 1\nL: resb %d" % v, "", v and 1 or 0, ["0;", " 9"], "\nM:"); L("reserve words", "db 1\nL: resw %d" % v, "", v and 1 or 0, ["0;", " 9"], "\nM:"); L("origin", "org %d" % v, "", v and 1 or 0, ["0;", " 9"], "\nM: jmp M\n dw M\n")
    for n in (505, 508, 509, 510, 511, 512, 513, 514, 1021, 1022, 1023, 1024, 1025): L("buffer", "", "db 'a'\n" , n // 7, [" \n;"] * 2, " " * (n % 7) + "\ndb 'b'\ndw 0x1234\n", lambda n, w: list(b"a" * n + (b"b" if True else b"") + b"\x34\x12"))
    for n in (1, 5, 30, 200): L("brackets", "mov ax, ", "[", n, ["[b]"], "bx]\n"); L("unary", "mov ax, ", "-", n, ["-~+"], " 1\n"); L("unary mixed", "dw ", "~-", n, ["-~+"], " 1\n"); L("sum", "mov ax, 1", "+1", n, ["+-|"], " 1\n"); L("shifts", "mov ax, 1", "<<1", n, ["<|"], "| 1\n")
    C.bounds = {"free_bytes": N, "tokens": 4 if T else 3, "limit_sources": sum(1 for j in C.jobs if j[0].startswith("limit"))}
    sys.exit(C.run(need=["sources", "paths", "accepted", "rejected"]))
