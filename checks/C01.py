"""C01: integer arithmetic in code compiled by scc."""
from ccgen import *
from cclib import *
import cclit
# programs known to break the property; identified by their text in known_findings.jsonl
KNOWN = ["x / sizeof(int)", "a % sizeof(int)", "a / 0x8000", "a % 0xFFFF", "a < sizeof(int)"]
def binary():
    fs = []
    for l, sl in lops():
        for r, sr in rops():
            for op in ARITH: fs.append(fn("%s %s %s" % (l, op, r), sl + " " + sr))
        for k in CONSTS:
            for op in ARITH:
                if (op in ("<<", ">>") and k not in SHIFTS) or (op in "/%" and k in ("0", "sizeof(int)")): continue
                fs.append(fn("%s %s %s" % (l, op, k), sl))
                if not (k == "sizeof(int)" and op in "/%>>"): fs.append(fn("%s %s %s" % (k, op, l), sl))
    return fs
def unary():
    fs = []
    for t, s in lops() + rops():
        for u in ["-", "~", "+", "!", "(char)", "(unsigned char)", "(unsigned)", "(int)", "!!", "-(char)", "~(unsigned char)", "(int)(char)", "(char)(unsigned char)", "- -", "-~", "!-"]:
            fs.append(fn("%s(%s)" % (u, t), s)); fs.append(fn("(%s(%s)) / 3" % (u, t), s)); fs.append(fn("(%s(%s)) >> 1" % (u, t), s))
    return fs
def compound():
    fs = []
    for t, s, k in targets():
        for op in ["="] + [o + "=" for o in ARITH]:
            for r, sr in [("a", ""), ("u", ""), ("x", ""), ("y", ""), ("1", ""), ("3", ""), ("7", ""), ("2", ""), ("15", ""), ("-1", ""), ("100", ""), ("300", ""), ("(a < u)", ""), ("id(a)", ""), ("-u", ""), ("g2", ""), ("c2", ""), ("arr[a & 3]", "")]:
                if op in ("<<=", ">>=") and r in ("-1", "100", "300"): continue
                for form in ["{t} {o} {r}; return {t};", "return {t} {o} {r};", "h2 = {t} {o} {r}; return {t};", "if ({t} {o} {r}) return 1; return {t};", "return ({t} {o} {r}) / 3;"]:
                    fs.append(body(decls(s, sr) + " " + form.format(t=t, o=op, r=r)))
    return fs
def incdec():
    fs = []
    for t, s, k in targets():
        for e in ["{t}++", "++{t}", "{t}--", "--{t}"]:
            e = e.format(t=t if not t.startswith("*") else "(%s)" % t)
            for form in ["{e}; return {t};", "return {e};", "h2 = {e}; return {t};", "if ({e}) return 1; return {t};", "return ({e}) / 3;", "return b + ({e});", "return ({e}) - b;", "k2 = {e}; return k2;", "while ({e}) return 1; return 2;"]:
                fs.append(body(decls(s) + " " + form.format(e=e, t=t)))
    return fs
def trees(n, rnd, ds):
    fs = []
    for i in range(n):
        R = Rnd(rnd); e = R.e(rnd.choice(ds)); fs.append(fn(e, decls(*R.d), ret=rnd.choice(["int", "unsigned", "char"])))
    return fs
def literal(op, n, side):
    """f(a) = a op LIT or LIT op a with an n-digit decimal literal of symbolic digits: the emitted code computes op with the literal's value"""
    res = Result(); sx.lib().set_timeout(20000); pc = PC(); d = [var("d%d" % i, 8) for i in range(n)]; a = var("a", 16)
    for i, x in enumerate(d): pc.assume(cclit.isdig(x, "1" if i == 0 and n > 1 else "0"))
    K = cclit.decimal(d)
    if n == 5: pc.assume(conj([d[0].ult(ord("4")), cclit.decimal(d[:4]).ult(3277), ~K.slt(0)]))
    if op in ("<<", ">>") and side == "r" and not pc.assume(K.ult(16)): return res
    if op in "/%": pc.assume((K if side == "r" else a).ne(0))
    if op in ("<<", ">>") and side == "l": pc.assume(a.ult(16))
    pre, post = (b"int f(int a) { return a %s " % op.encode(), b"; }\nvoid _start(void){}\n") if side == "r" else (b"int f(int a) { return ", b" %s a; }\nvoid _start(void){}\n" % op.encode())
    src = list(pre) + d + list(post); ok = 0
    for p, com, m in cclit.symcompile(res, src, pc):
        if com is None:
            mdl = p.pc.model(); t = cclit.concrete(src, mdl); r = sx.run_native("scc", ["p.c"], {"p.c": t}, timeout=10)
            if r.rc != 0: res.add(viol("rejected literal %s %s%d" % (op, side, n), "scc does not compile %r (exit %s)" % (t[:60], r.rc), repr(r.out[-300:]), {"p.c": t}))
            else: raise RuntimeError("compiler path ends with %s but the real compiler accepts %r" % (p.st, t))
            continue
        ok += 1
        cclit.run_emitted(res, src, p, com, m, "f", [a], (lambda k: OP(a, k)) if side == "r" else (lambda k: OP(k, a)), "literal %s %s%d" % (op, side, n), K) if (OP := cclit.OPSEM[op]) else None
    res.count("literal_forms", 1 if ok else 0); res.sample("int f(int a): %s %s %d-digit literal" % (op, side, n)); return res
def retry(fs): return [f for f in fs if f is not None]
if __name__ == "__main__":
    C = Check("C01", "translation_validation", "scc's output executed symbolically on an 8086 model vs. the same C text compiled by clang for a 16-bit target and executed symbolically; scc's own LLVM IR executed on symbolic literals; SMT (QF_BV) decides equality per path", [
        "operands: all 2^16 values of every parameter, global, array element and structure member used; literals: every decimal literal of 1-5 digits up to 32767 for the operators in a fixed context",
        "program texts are the enumerated operator/operand families plus seeded random expression trees; inputs for which C leaves the result undefined are excluded (clang's traps on shifts and division)",
        "clang 18's C semantics for int=16 bit, char=signed 8 bit is the oracle"])
    rnd = random.Random(C.seed); bi = binary(); un = unary(); co = compound(); inc = incdec(); rnd.shuffle(bi); rnd.shuffle(co); rnd.shuffle(un)
    if C.thorough: tr = trees(12000, rnd, [2, 2, 3]) + trees(3000, rnd, [4, 4, 5])
    else: bi = bi[:22000]; un = un[:3000]; co = co[:5000]; tr = trees(2500, rnd, [2, 2, 3])
    C.bounds = {"binary": len(bi), "unary": len(un), "compound": len(co), "incdec": len(inc), "random_trees": len(tr), "literal_digits": "1-5"}
    sx.native("scc"); sx.tool_bc("scc")
    for n in (1, 2, 3, 4, 5) if C.thorough else (1, 2, 5):
        for op in cclit.OPSEM:
            for s in "rl":
                if op in ("<<", ">>") and s == "r" and n > 2: continue
                C.job("literal_%s_%s%d" % (op, s, n), literal, op, n, s)
    for nm, fs, sz in (("binary", bi, 120), ("unary", un, 120), ("compound", co, 100), ("incdec", inc, 100), ("tree", tr, 60)):
        for b in batches(nm, fs, sz): C.job(b.name, run_batch, b)
    C.job("known", run_batch, Batch("known", DECLS, [fn(e) for e in KNOWN], GLOBALS, HELP))
    sys.exit(C.run(need=["path_pairs", "programs", "literal_forms", "immediates_proved"], limits={"undecided": ("programs", 0.02)}))
