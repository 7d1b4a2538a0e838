"""scc checks: C functions compiled by the real compiler, executed symbolically on the 8086 model, against the same
C text compiled by clang for a 16-bit target and executed symbolically. Arguments and global objects are symbolic."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sx, itertools, random, re, hashlib
from sx import var, const, conj, disj, PC, E
from check import Check, Result, viol
SEG = 0x2000; SP0 = 0xFF00; RETIP = 0xFFF0
SAN = ["-fsanitize=shift-exponent,integer-divide-by-zero", "-fsanitize-trap=all"]
class Fn:
    """one function under test: C text (common to both compilers), return type, argument types"""
    def __init__(self, name, text, ret="int", args=(), pre=None, tag=None, note=None): self.name = name; self.text = text; self.ret = ret; self.args = list(args); self.pre = pre; self.tag = tag or name; self.note = note
SIZE = {"int": 2, "unsigned": 2, "char": 1, "unsigned char": 1, "void": 0, "short": 2}
def scc_compile(text):
    r = sx.run_native("scc", ["p.c"], {"p.c": text.encode()}, timeout=20)
    if r.rc != 0 or "p.com" not in r.files: return None, (r.rc, r.out.decode(errors="replace")[-300:])
    m = {}
    for l in r.files["p.map"].decode(errors="replace").split("\r\n"):
        if " " in l: a, n = l.split(" ", 1); m.setdefault(n, int(a, 16))
    return r.files["p.com"], m
def ref_module(text, name):
    p = os.path.join(sx.tmpdir(), name + ".c")
    with open(p, "w") as f: f.write("#define va_list __builtin_va_list\n#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\n#define va_end __builtin_va_end\n#line 1\n" + text)
    return sx.Module(sx.c_bc(p, name, msp430=True, flags=SAN))
START = "void _start(void){}\n"
class Batch:
    """a translation unit with common declarations (globals) and many functions under test.
    globals: {name: (size, symbolic?)} objects whose contents are inputs and observed outputs"""
    def __init__(self, name, decls, fns, globals=None, helpers="", ptrs=()):
        self.name = name; self.decls = decls; self.helpers = helpers; self.fns = fns; self.globals = globals or {}; self.ptrs = ptrs
    def text(self, fns): return self.decls + "\n" + self.helpers + "\n" + "\n".join(f.text for f in fns) + "\n" + START
def gvars(g, sizes):
    """symbolic contents of global g"""
    return [var("%s_%d" % (g, i), 8) for i in range(sizes)]
def run_batch(b, rng=600, conc=40, steps=20000):
    sx.lib().set_timeout(5000)
    res = Result(); fns = b.fns
    bad = []
    com, m = scc_compile(b.text(fns))
    if com is None:
        ok = []
        for f in fns:
            c, mm = scc_compile(b.text([f]))
            if c is None: res.add(viol("rejected %s" % f.tag, "scc does not compile (%s): %s" % (mm, f.tag), b.text([f]), {"p.c": b.text([f])}))
            else: ok.append(f)
        fns = ok
        if not fns: return res
        com, m = scc_compile(b.text(fns))
        if com is None:
            if len(fns) > 1:
                h = len(fns) // 2
                for part in (fns[:h], fns[h:]):
                    r2 = run_batch(Batch(b.name, b.decls, part, b.globals, b.helpers, b.ptrs), rng, conc, steps); res.viols += r2.viols
                    for k, v in r2.n.items(): res.count(k, v)
                return res
            return res
    mod = ref_module(b.text(fns), "r" + hashlib.sha1((b.name + b.text(fns)).encode()).hexdigest()[:12])
    for f in fns:
        res.count("programs"); res.sample(f.text[:300])
        one(res, b, f, mod, com, m, rng, conc, steps)
    return res
def argbits(f):
    out = []
    for i, t in enumerate(f.args):
        w = SIZE[t.replace("const ", "")]
        out.append(var("a%d" % i, 16))
    return out
def x86fn(com, m, f, args, gl, pc, rng, conc, steps):
    j = sx.XJob()
    j.mem(SEG * 16 + 0x100, com); j.mem(SEG * 16 + 0x100 + len(com), b"\xF4" * (SP0 - 0x2000 - 0x100 - len(com))) # HLT: leaving the code ends the run
    for s in sx.R: j.reg(s, var("r0_" + s, 16) if s in ("AX", "CX", "DX", "BX", "SI", "DI") else SEG)
    for x in sx.F: j.flag(x, 0)
    j.reg("SP", SP0); j.reg("BP", 0xBEEF)
    fr = [RETIP & 255, RETIP >> 8]
    for a in args: fr += [a.ex(0, 8), a.ex(8, 8)]
    j.mem(SEG * 16 + SP0, fr)
    if "_SBSS" in m: j.mem(SEG * 16 + m["_SBSS"], b"\0" * (m["_EBSS"] - m["_SBSS"])) # cleared by the start-up code
    for g, (n, sym) in gl.items():
        if g not in m: continue
        if sym: j.mem(SEG * 16 + m[g], gvars(g, n))
    j.stop(RETIP); j.code(0x100, 0x100 + len(com))
    return j, j.run(m[f.name], pc=pc, steps=steps, rng=rng, conc=conc, undef="u", dos=1, time_=20)
def refargs(f, args):
    out = []
    for t, a in zip(f.args, args):
        if t in ("char", "unsigned char"): out.append(a.ex(0, 8))
        else: out.append(a)
    return out
def inputs(b, mod, args):
    """the symbolic inputs as 16-bit words"""
    w = list(args)
    for g, (n, sym) in b.globals.items():
        if sym and mod.globaddr(g):
            v = gvars(g, n)
            for i in range(0, n, 2): w.append(v[i + 1].cat(v[i]) if i + 1 < n else v[i])
    return w
def restrictions(ws, pc):
    """sub-domains tried when the solver has no answer over the whole domain: small operands, operands around the sign change, single solver-chosen inputs"""
    yield "small", [(w + (16 & ((1 << w.w) - 1))).ult(32) for w in ws]
    yield "sign change", [(w - ((1 << (w.w - 1)) - 4)).ult(8) for w in ws]
    rnd = random.Random(7); m = pc.model()
    yield "one input", [w.eq(w.eval(m)) for w in ws]
    for k in range(3): yield "one input", [w.eq(rnd.getrandbits(w.w) if k else rnd.choice([0, 1, 2, 255 & ((1 << w.w) - 1)])) for w in ws]
def one(res, b, f, mod, com, m, rng, conc, steps):
    args = argbits(f); pc = PC()
    if f.pre is not None: pc.assume(f.pre(args))
    try: return attempt(res, b, f, mod, com, m, rng, conc, steps, args, pc)
    except (sx.Unknown, sx.Incomplete) as e: why = e
    res.count("retried_on_sub_domains"); ok = 0
    for kind, cs in restrictions(inputs(b, mod, args), pc):
        p2 = pc.clone()
        try:
            if not all(p2.assume(c) for c in cs): continue
            if attempt(res, b, f, mod, com, m, rng, conc, steps, args, p2): return True
            ok += kind != "one input"
        except (sx.Unknown, sx.Incomplete): pass
    if not ok: res.count("undecided"); res.sample("undecided: %s (%s)" % (f.text[:200], why))
def attempt(res, b, f, mod, com, m, rng, conc, steps, args, pc):
    gl = {g: gvars(g, n) for g, (n, sym) in b.globals.items() if sym and mod.globaddr(g)}
    ps = sx.run_fn(mod, f.name, refargs(f, args), pc=pc, globals=gl, keep=True, rng=rng, conc=conc, time_=20)
    done = False
    for p in ps:
        if p.st != "RETURN": res.count("undefined_paths_excluded" if p.st in ("ABORT", "DIVZERO", "MEMERR") else "ref_" + p.st); continue
        j, xs = x86fn(com, m, f, args, b.globals, p.pc.clone(), rng, conc, steps)
        for x in xs:
            res.count("path_pairs"); done = True
            mdl, why = compare(res, b, f, j, p, x, mod, m, args)
            if mdl is not None: confirm(res, b, f, com, m, args, mdl, mod, why); return True
    if not done: res.count("no_defined_path")
    return False
def compare(res, b, f, j, p, x, mod, m, args):
    """a model in which the compiled function's path x differs from the reference path p, and how"""
    if x.st != "STOP" and not (x.st == "HALT" and x.ip == RETIP): return x.pc.model(), "ends with %s %s" % (x.st, x.msg)
    checks = []
    w = SIZE.get(f.ret, 2) * 8
    if w: checks.append(("result", p.ret, x.reg(0).ex(0, w)))
    checks.append(("stack pointer after return", const(SP0 + 2, 16), x.reg(4))); checks.append(("frame pointer after return", const(0xBEEF, 16), x.reg(5)))
    for g, (n, sym) in b.globals.items():
        ga = mod.globaddr(g)
        if ga is None or g not in m: continue
        for i, (q, r) in enumerate(zip(p.mem(ga[0], n), x.mem(SEG * 16 + m[g], n))): checks.append(("%s byte %d" % (g, i), sx.bits(q, 8), sx.bits(r, 8)))
    d = disj([a.ne(c) for _, a, c in checks if not a.same(c)])
    if d.val != 0:
        mdl = x.pc.check(d)
        if mdl is not None:
            bad = [(n, a.eval(mdl), c.eval(mdl)) for n, a, c in checks if a.eval(mdl) != c.eval(mdl)]; res.count("disagreements")
            if not bad: raise RuntimeError("model does not satisfy the difference: " + f.text)
            return mdl, "; ".join("%s is %s, C prescribes %s" % (n, hex(cv), hex(av)) for n, av, cv in bad[:3])
    # nothing outside the program's own objects and the stack may change
    own = []
    for a in j.memdiff(x):
        o = a - SEG * 16
        if SP0 - 0x2000 <= o < SP0 + 2 + 2 * len(args): continue # the stack and the function's own arguments
        if m["_SBSS"] <= o < m["_EBSS"] or any(m[g] <= o < m[g] + n for g, (n, s) in b.globals.items() if g in m): continue
        own.append(o)
    if own: return x.pc.model(), "memory outside its objects changed at %s" % ", ".join(hex(o & 0xfffff) for o in own[:4])
    return None, None
def confirm(res, b, f, com, m, args, mdl, mod, why):
    """replay concretely: run the compiled program in the same model with the concrete inputs (the compiler itself ran natively)"""
    cargs = [a.eval(mdl) for a in args]; gv = {}
    cpc = PC()
    for a, v in zip(args, cargs): cpc.assume(a.eq(v))
    for g, (n, sym) in b.globals.items():
        if sym:
            gv[g] = bytes(x.eval(mdl) for x in gvars(g, n))
            for x, v in zip(gvars(g, n), gv[g]): cpc.assume(x.eq(v))
    out = []
    src = b.text([f]); call = "%s(%s)" % (f.name, ", ".join("0x%x" % v for v in cargs))
    single, m1 = scc_compile(src)
    nat = native_replay(b, f, cargs, gv)
    res.add(viol("%s" % f.tag, "%s: %s" % (f.tag, why), "call %s with globals %s\n%s\nsource:\n%s\nnatively run in sim86: %s" % (call, {g: v.hex() for g, v in gv.items()}, why, f.text, nat), {"p.c": src, "whole.com": com}))
    return True
def native_replay(b, f, cargs, gv):
    """the real compiler and the real simulator on a driver program printing the result"""
    drv = b.decls + "\n" + b.helpers + "\n" + f.text + """
void PutCh_(int c) { _emit 0xB4 _emit 0x02 _emit 0x8A _emit 0x56 _emit 0x04 _emit 0xCD _emit 0x21 }
void Hex_(int v) { int i; i = 4; while (i) { i = i - 1; PutCh_("0123456789ABCDEF"[(v >> (i*4)) & 15]); } PutCh_(' '); }
void _start(void) { char* p_; int i_;
"""
    for g, v in gv.items(): drv += "".join("p_ = (char*)&%s; p_[%d] = %d;\n" % (g, i, x) for i, x in enumerate(v))
    call = "%s(%s)" % (f.name, ", ".join("0x%x" % (c if t not in ("char", "unsigned char") else c & 255) for c, t in zip(cargs, f.args)))
    drv += ("%s;\n" % call if f.ret == "void" else "Hex_(%s);\n" % call)
    for g, (n, _) in b.globals.items(): drv += "p_ = (char*)&%s; for (i_ = 0; i_ < %d; i_ = i_ + 1) Hex_(p_[i_] & 255);\n" % (g, n)
    drv += "}\n"
    com, m = scc_compile(drv)
    if com is None: return "driver rejected: %s" % (m,)
    r = sx.run_native("sim86", ["p.com"], {"p.com": com}, timeout=10)
    return "driver prints %r (exit %s)" % (r.out[:200], r.rc)
def chunks(l, n):
    for i in range(0, len(l), n): yield l[i:i + n]
