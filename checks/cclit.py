"""scc run symbolically (its LLVM IR) on programs whose literals are symbolic characters; the code it emits, with symbolic bytes, is run on the 8086 model."""
from cclib import *
import cclib
_sc = {}
def sccmod():
    if "m" not in _sc: _sc["m"] = sx.Module(sx.tool_bc("scc"))
    return _sc["m"]
def mapsyms(bs):
    m = {}
    t = bytes(b if isinstance(b, int) else 63 for b in bs).decode(errors="replace")
    for l in t.split("\r\n"):
        if " " in l:
            a, n = l.split(" ", 1)
            try: m.setdefault(n, int(a, 16))
            except ValueError: pass
    return m
def symcompile(res, src, pc, paths=3000, steps=3000000, time_=120):
    """src: list of bytes and expressions. Yields (path, com bytes, map) for paths on which scc succeeds; others are yielded with com None."""
    ps = sx.run_main(sccmod(), ["scc", "p.c", "p.com"], {"p.c": src}, pc=pc, steps=steps, paths=paths, time_=time_, rng=300, conc=300)
    for p in ps:
        res.count("compiler_paths")
        if p.st == "EXIT" and p.code == 0: yield p, p.file("p.com"), mapsyms(p.file("p.map"))
        else: yield p, None, None
def concrete(src, mdl): return bytes(b if isinstance(b, int) else b.eval(mdl) for b in src)
def decimal(digs):
    v = const(0, 16)
    for d in digs: v = v * 10 + (d.zx(16) - 48)
    return v
def isdig(d, lo="0", hi="9"): return ~(d.ult(ord(lo))) & ~(const(ord(hi), 8).ult(d))
OPSEM = {"+": lambda a, k: a + k, "-": lambda a, k: a - k, "*": lambda a, k: a * k, "/": lambda a, k: a.sdiv(k), "%": lambda a, k: a.srem(k), "&": lambda a, k: a & k, "|": lambda a, k: a | k, "^": lambda a, k: a ^ k,
         "<<": lambda a, k: a << k, ">>": lambda a, k: a.ashr(k), "<": lambda a, k: a.slt(k).zx(16), ">": lambda a, k: k.slt(a).zx(16), "<=": lambda a, k: (~k.slt(a)).zx(16), ">=": lambda a, k: (~a.slt(k)).zx(16), "==": lambda a, k: a.eq(k).zx(16), "!=": lambda a, k: a.ne(k).zx(16)}
def run_emitted(res, src, p, com, m, fn, args, expect, what, K=None, rng=600):
    """run function fn of the emitted program (symbolic bytes) and compare its result with expect(K).
    Immediates that are proved equal to the literal's value K are replaced by one variable constrained to equal K"""
    f = Fn(fn, what, "int", ["int"] * len(args)); pc = p.pc.clone(); run = list(com)
    if K is not None:
        k = var("K", 16); pc.assume(k.eq(K)); i = 0; kk = [k.ex(0, 8), k.ex(8, 8)]; kb = [K.ex(0, 8), K.ex(8, 8)]
        while i < len(run):
            sym = lambda x: not isinstance(x, int)
            if sym(com[i]):
                if i + 1 < len(com) and (sym(com[i + 1]) or com[i + 1] == 0) and pc.must(com[i].eq(kb[0])) and pc.must(sx.bits(com[i + 1], 8).eq(kb[1])): run[i:i + 2] = kk; i += 2; res.count("immediates_proved"); continue
                if pc.must(com[i].eq(kb[0])): run[i] = kk[0]; res.count("immediates_proved")
            i += 1
        expect = expect(k)
    elif callable(expect): expect = expect(None)
    j, xs = x86fn(run, m, f, args, {}, pc, rng, 40, 20000)
    for x in xs:
        res.count("path_pairs"); mdl = None; why = None
        if x.st != "STOP": mdl = x.pc.model(); why = "ends with %s %s" % (x.st, x.msg)
        else:
            d = disj([expect.ne(x.reg(0)), x.reg(4).ne(const(SP0 + 2, 16)), x.reg(5).ne(const(0xBEEF, 16))])
            if d.val != 0:
                mdl = x.pc.check(d)
                if mdl is not None: why = "result is 0x%x, C prescribes 0x%x" % (x.reg(0).eval(mdl), expect.eval(mdl))
        if mdl is not None:
            text = concrete(src, mdl); av = [a.eval(mdl) for a in args]
            nat, nm = scc_compile(text.decode("latin1")) if all(c < 128 for c in text) else (None, None)
            same = nat is not None and nat == bytes(b if isinstance(b, int) else b.eval(mdl) for b in com)
            res.add(viol(what, "%s: %s" % (what, why), "program:\n%s\ncall f(%s)\n%s\nthe natively built compiler emits the same bytes: %s" % (text.decode("latin1"), ", ".join(map(hex, av)), why, same), {"p.c": text})); return
