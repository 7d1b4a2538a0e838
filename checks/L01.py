"""L01: the run-time library (lib.h) as compiled by scc for DOS, executed symbolically on the 8086 model, against what C and DOS prescribe."""
from simlib import *
from cclib import scc_compile
import subprocess, itertools
MARK = b"@0123456789ABCDEFGHIJKL#"
def lib_text():
    "lib.h as a program compiled by scc sees it"
    return subprocess.run([sx.CLANG(), "-E", "-P", "-w", "-undef", "-D__SCC__", "-x", "c", os.path.join(sx.REPO, "lib.h")], stdout=subprocess.PIPE, check=True).stdout.decode()
HELP = "void Out(int v) { raw_putchar(v); }\nvoid Outw(int v) { raw_putchar(v); raw_putchar(v >> 8); }\nvoid Outn(char* p, int n) { while (n--) raw_putchar(*p++); }\nint Word(char* p) { return (p[0] & 255) | (p[1] & 255) << 8; }\nchar D[12]; char S[64]; int G;\n"
def in_(n): return [var("i%d" % i, 8) for i in range(n)]
def program(body):
    "body: main's statements; p points at the input bytes"
    src = lib_text() + "\n" + HELP + "int main(int argc, char** argv) { char* p = \"%s\"; int k; %s return 0; }\n" % (MARK.decode(), body)
    com, m = scc_compile(src)
    if com is None: raise sx.BuildError("scc rejects lib.h with the test program: %s" % (m,))
    return src, com, m
def run(res, name, body, cases, nin=20, tail=None, files=None, sig=None, efiles=None, env=None, full=True):
    """cases: [(assumption, bytes of the expected output or function(actual) -> (condition, text), expected exit code, tag)]"""
    src, com, m = program(body); res.count("programs"); f = list(com); o = com.find(MARK); I = in_(nin)
    if o >= 0:
        assert com.find(MARK, o + 1) < 0
        for i in range(nin): f[o + i] = I[i]
    for case in cases:
        asm, exp, code, tag = case; pc = PC()
        if not pc.assume(asm): continue
        res.count("cases")
        j = x86job(f, tail or b"", files)
        if env: env(j)
        j.mem(SEG * 16 + 0x100 + len(f), [var("bss%d" % i, 8) if i < 700 and full else 0 for i in range(min(max(m["_EBSS"] - 0x100 - len(f), 0), 700))]) # memory after the program has arbitrary contents
        for x in j.run(0x100, pc=pc.clone(), steps=60000, conc=300, rng=600):
            res.count("path_pairs"); bad = None; out = x.out()
            if x.st != "EXIT": bad = "ends with %s %s" % (x.st, x.msg); mdl = x.pc.model()
            else:
                want = exp(out) if callable(exp) else exp
                if isinstance(want, tuple): d, bad, want = ~want[0], want[1], None
                elif len(want) != len(out): d = sx.true(); bad = "prints %d bytes, expected %d" % (len(out), len(want))
                else: d = disj([sx.bits(a, 8).ne(sx.bits(b, 8)) for a, b in zip(out, want)]); bad = "prints something else"
                if code is not None: d = d | sx.bits(x.code, 32).ex(0, 8).ne(sx.bits(code, 8))
                for n, b in (efiles or {}).items():
                    a = x.file(n)
                    if a is None or len(a) != len(b): d = sx.true(); bad = "file %s is missing or has the wrong length" % n
                    else: d = d | disj([sx.bits(p, 8).ne(sx.bits(q, 8)) for p, q in zip(a, b)])
                mdl = x.pc.check(d) if d.val != 0 else None
            if mdl is None: continue
            iv = sx.eval_bytes(I, mdl); cf = sx.eval_bytes(f, mdl); act = sx.eval_bytes(out, mdl)
            w = None if callable(exp) and x.st != "EXIT" else (sx.eval_bytes(want, mdl) if want is not None else None)
            args = [] if tail is None else [sx.eval_bytes(tail, mdl).decode("latin1").strip(" ")]
            ff = {"t.com": cf}
            for n, b in (files or {}).items(): ff[n] = sx.eval_bytes(b, mdl)
            r = sx.run_native("sim86", ["t.com"] + args, ff)
            res.add(viol(sig or "%s: %s" % (name, tag), "%s (%s): %s" % (name, tag, bad), "main: %s\ninput bytes %s command tail %r\nexpected output %s exit %s\n8086 model: %s exit %s output %s\nsim86: exit %s output %s" % (body, iv.hex(), args, w.hex() if w is not None else "?", code, x.st, x.code, act.hex(), r.rc, r.out.hex()), {"t.com": cf, "t.c": src}))
            break
    return res
def nz(*bs): return conj([b.ne(0) for b in bs])
def s_memcpy():
    I = in_(20); c = []
    for n in range(7): c.append((I[0].eq(n), [0x55] + [I[1 + i] if i < n else I[8 + i] for i in range(7)] + [0x55], 0, "%d bytes" % n))
    return run(Result(), "memcpy", "D[0] = 0x55; for (k = 0; k < 7; k++) D[k+1] = p[8+k]; D[8] = 0x55; memcpy(D + 1, p + 1, *p); Outn(D, 9);", c)
def s_memset():
    I = in_(20); c = []
    for n in range(7): c.append((I[0].eq(n), [0x55] + [I[1] if i < n else I[8 + i] for i in range(7)] + [0x55], 0, "%d bytes" % n))
    return run(Result(), "memset", "D[0] = 0x55; for (k = 0; k < 7; k++) D[k+1] = p[8+k]; D[8] = 0x55; memset(D + 1, Word(p + 1), *p); Outn(D, 9);", c)
def s_strlen():
    I = in_(20); return run(Result(), "strlen", "Outw(strlen(p)); Outw(strlen(p + 1));", [(nz(*I[:n]) & I[n].eq(0) & (nz(*I[1:3]) & I[3].eq(0) if n == 0 else sx.true()), [n, 0, n - 1 if n else 2, 0], 0, "length %d" % n) for n in range(9)])
def s_strcpy(fn):
    I = in_(20); c = []
    for n in range(7): c.append((nz(*I[:n]) & I[n].eq(0), I[:n] + [0] + [I[10 + i] for i in range(n + 1, 9)] + ([n, 0] if fn == "CopyStr" else []), 0, "length %d" % n))
    return run(Result(), fn, "for (k = 0; k < 9; k++) D[k] = p[10+k]; " + ("char* e = CopyStr(D, p); Outn(D, 9); Outw(e - D);" if fn == "CopyStr" else "strcpy(D, p); Outn(D, 9);"), c)
def s_strcmp():
    I = in_(20); A, B = I[:10], I[10:]; c = []
    for k in range(6):
        pre = conj([A[i].eq(B[i]) & A[i].ne(0) for i in range(k)]); end = conj([A[9].eq(0), B[9].eq(0)])
        c.append((pre & A[k].eq(0) & B[k].eq(0), [ord("="), ord("=")], 0, "equal, length %d" % k))
        c.append((pre & end & A[k].ult(B[k]), [ord("<"), ord(">")], 0, "smaller at %d" % k)); c.append((pre & end & A[k].ugt(B[k]), [ord(">"), ord("<")], 0, "greater at %d" % k))
    return run(Result(), "strcmp", "k = strcmp(p, p + 10); Out(k < 0 ? '<' : k > 0 ? '>' : '='); k = strcmp(p + 10, p); Out(k < 0 ? '<' : k > 0 ? '>' : '=');", c)
def digits(out, n, v, pre=(), post=()):
    "out is pre, the n decimal digits of v, post"
    pre = list(pre); post = list(post)
    if len(out) != len(pre) + n + len(post): return sx.false(), "prints %d characters, expected %d" % (len(out), len(pre) + n + len(post)), None
    s = const(0, 32); ok = []
    for b in out[len(pre):len(pre) + n]: b = sx.bits(b, 8); ok.append(b.uge(48) & b.ule(57)); s = s * 10 + (b - 48).zx(32)
    ok += [sx.bits(a, 8).eq(sx.bits(b, 8)) for a, b in zip(out, pre)] + [sx.bits(a, 8).eq(sx.bits(b, 8)) for a, b in zip(out[len(pre) + n:], post)]
    return conj(ok) & s.eq(v), "wrong characters for the number", None
def s_int(fmt, plus, fill, w, lit0=b"", lit1=b"", via="sprintf"):
    I = in_(20); v = I[1].cat(I[0]); c = []
    for neg in (0, 1):
        a = (-v if neg else v).zx(32)
        for n in range(1, 6):
            lo, hi = (10 ** (n - 1) if n > 1 or neg else 0), min(10 ** n - 1, 32768 if neg else 32767)
            sgn = b"-" if neg else b"+" if plus else b""; pad = max(0, w - n - len(sgn))
            pre = lit0 + (sgn + b"0" * pad if fill else b" " * pad + sgn)
            for part, cond in (("", a.ne(32768)), (" smallest", a.eq(32768))):
                c.append(((v.slt(0) if neg else v.sge(0)) & a.uge(lo) & a.ule(hi) & cond, lambda out, n=n, a=a, pre=pre: digits(out, n, a, pre, lit1.replace(b"\n", b"\r\n") if via == "printf" else lit1), 0, "%s%d digits%s" % ("negative, " if neg else "", n, part)))
    return run(Result(), '%s "%s"' % (via, fmt.replace("\n", "\\n")), ('sprintf(S, "%s", Word(p)); PutStr(S);' if via == "sprintf" else 'printf("%s", Word(p));') % fmt.replace("\n", "\\n"), c)
def hexd(v): return (v.ult(10)).ite(v + 48, v + 55)
def s_hex(fmt, w):
    I = in_(20); v = I[1].cat(I[0]); c = [(v.ult(1 << 4 * w) if w < 4 else sx.true(), [hexd(v.ex(4 * i, 4).zx(8)) for i in range(w - 1, -1, -1)], 0, "all values")]
    return run(Result(), 'sprintf "%s"' % fmt, 'sprintf(S, "%s", Word(p)); PutStr(S);' % fmt, c)
def crlf(s):
    "the text-mode output of characters known not to be symbolic line feeds"
    o = []
    for b in s: o += [13, 10] if not isinstance(b, E) and b == 10 else [b]
    return o
def s_str():
    I = in_(20); c = []
    for n in range(6): c.append((conj([b.ne(0) & b.ne(10) for b in I[:n]]) & I[n].eq(0) & I[10].ne(0) & I[10].ne(10) & I[11].eq(7), [60] + I[:n] + [61, I[10], 37, 124, 55, 62], 0, "string of %d" % n))
    return run(Result(), "sprintf %s %c %%", 'sprintf(S, "<%s=%c%%|%d>", p, p[10], p[11]); PutStr(S);', c)
def s_puts(fn):
    I = in_(20); c = []
    for lf in itertools.product((0, 1), repeat=3):
        exp = []
        for i, l in enumerate(lf): exp += [13, 10] if l else [I[i]]
        c.append((conj([I[i].eq(10) if l else I[i].ne(10) & I[i].ne(0) for i, l in enumerate(lf)]) & I[3].eq(0), exp + ([13, 10] if fn == "puts" else []), 0, "line feeds %s" % (lf,)))
    return run(Result(), fn, {"puts": "puts(p);", "PutStr": "PutStr(p);", "printf": 'printf("%s", p);', "putchar": "for (k = 0; k < 3; k++) putchar(p[k]);"}[fn], c)
def s_exit(how):
    I = in_(20); v = I[1].cat(I[0])
    return run(Result(), how, {"exit": "Out('a'); exit(Word(p)); Out('b');", "return from main": "Out('a'); return Word(p);"}[how], [(sx.true(), b"a", I[0], "all values")])
def s_files():
    I = in_(20); A = [var("f%d" % i, 8) for i in range(5)]; r = Result()
    c = [(I[0].eq(n), [m & 255, 0] + A[:m] + [0x55] * (8 - m) + [(5 - m) & 255, 0, 0, 0], 0, "read %d" % n) for n, m in ((k, min(k, 5)) for k in range(8))]
    run(r, "read", 'int fd = open("a.bin", O_RDONLY); memset(D, 0x55, 8); Outw(read(fd, D, *p)); Outn(D, 8); Outw(read(fd, D, 8)); Outw(read(fd, D, 8)); close(fd);', c, files={"a.bin": A})
    run(r, "open", 'Outw(open("nofile.bin", O_RDONLY)); k = open("a.bin", O_RDONLY | O_BINARY); Out(k < 0);', [(sx.true(), [255, 255, 0], 0, "missing file")], files={"a.bin": A})
    for n in range(5):
        run(r, "write", 'int fd = open("b.bin", O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, 0644); Out(fd < 0); Outw(write(fd, p + 1, *p)); Outw(write(fd, p + 10, 2)); close(fd); fd = open("b.bin", O_RDONLY); Outw(read(fd, D, 12)); Outn(D, 2);' , [(I[0].eq(n), [0, n, 0, 2, 0, n + 2, 0] + (I[1:1 + n] + I[10:12])[:2], 0, "write %d" % n)], efiles={"b.bin": I[1:1 + n] + I[10:12]}, files={"a.bin": A, "b.bin": A} if n & 1 else {"a.bin": A})
    return r
def s_far():
    I = in_(20); r = Result()
    run(r, "FarPeek", "G = Word(p); k = GetDS(); char* a = (char*)&G; Outw(FarPeek(k, (int)a)); Outw(FarPeek(k + 1, (int)a - 15)); Outw(FarPeek(k - 0x800, (int)a - 0x8000)); Outw(FarPeek(0x5000, 0xffff)); Out(GetDS() == k);", [(sx.true(), [I[0], 0, I[1], 0, I[0], 0, var("fm", 8), 0, 1], 0, "all values")], env=lambda j: j.mem(0x5ffff, [var("fm", 8)]))
    run(r, "FarPoke", "G = Word(p); k = GetDS(); char* a = (char*)&G; FarPoke(k + 1, (int)a - 16, Word(p + 2)); Outw(G); FarPoke(k - 0x800, (int)a - 0x7fff, Word(p + 4)); Outw(G); FarPoke(0x5000, 0xffff, p[7]); Out(FarPeek(0x5000, 0xffff)); memset(&G, p[6], 2); Outw(G); Out(GetDS() == k);", [(sx.true(), [I[2], I[1], I[2], I[4], I[7], I[6], I[6], 1], 0, "all values")])
    run(r, "clock", "k = GetDS(); Outw(clock()); Out(GetDS() == k); G = Word(p); Outw(G);", [(sx.true(), [var("t0", 8), var("t1", 8), 1, I[0], I[1]], 0, "all values")], env=lambda j: j.mem(0x46C, [var("t0", 8), var("t1", 8)]))
    return r
def s_doscall():
    "DosCall reports the carry flag and passes and returns registers"
    I = in_(20); r = Result()
    run(r, "DosCall", "int ax = 0x3d00; Outw(DosCall(&ax, 0, 0, p)); Out(ax);", [(nz(I[0]) & conj([I[i].eq(120) for i in range(1, 4)]) & I[4].eq(0) & ((I[0].eq(97)) if ok else (I[0].ne(97) & I[0].ugt(97) & I[0].ule(122))), (lambda out: (sx.bits(out[0], 8).eq(0) & sx.bits(out[1], 8).eq(0), "a failure is reported", None)) if ok else [255, 255, 2], 0, "existing file" if ok else "missing file") for ok in (1, 0)], files={"axxx": b"q"})
    return r
def s_assert():
    I = in_(20); v = I[1].cat(I[0]); head = list(b"Assertion failed\r\n")
    def pre(out):
        if len(out) < len(head): return sx.false(), "no message", None
        return conj([sx.bits(a, 8).eq(b) for a, b in zip(out, head)]), "no message", None
    return run(Result(), "assert", "assert(Word(p)); Out('o');", [(v.ne(0), b"o", 0, "true"), (v.eq(0), pre, 1, "false")])
def s_bss():
    return run(Result(), "start-up", "static int z; static char zz[3]; char* q; Outw(G); Outw(z); Outn(zz, 3); k = 0; for (q = msg; q != msg + 256; q++) k |= *q; for (q = S; q != S + 64; q++) k |= *q; Outw(k); Out(*p);", [(sx.true(), [0] * 9 + [in_(1)[0]], 0, "uninitialised objects are zero")])
def s_args(n, masks, hi=0):
    r = Result(); T = [var("t%d" % i, 8) for i in range(n)]
    for m in masks:
        words = []; cur = []
        for i in range(n):
            if m >> i & 1: cur.append(T[i])
            elif cur: words.append(cur); cur = []
        if cur: words.append(cur)
        exp = [len(words) + 1]
        for w in words: exp += w + [0]
        asm = conj([(T[i].uge(33) & T[i].ule(255 if hi else 127)) if m >> i & 1 else (T[i].uge(1) & T[i].ule(32) & T[i].ne(13)) for i in range(n)])
        if hi: asm = asm & disj([T[i].uge(128) for i in range(n) if m >> i & 1])
        run(r, "command line", "Out(argc); for (k = 1; k < argc; k++) { char* s = argv[k]; do Out(*s); while (*s++); } if (argv[argc]) Out('!'); if (argv[0] == 0) Out('?');", [(asm, exp + [], 0, "tail of %d, words %s" % (n, bin(m)))], tail=T, sig="command line: characters above 127" if hi else None, full=False)
    return r
if __name__ == "__main__":
    C = Check("L01", "other", "lib.h compiled by the real scc, the resulting programs executed symbolically on the 8086 model with DOS services; output, files and exit status compared with what C prescribes (SMT, QF_BV)", [
        "string lengths, sizes and command tails bounded as stated; all byte and integer values within them", "formats enumerated; %X/%x only where C gives the same: a width of 1-4 with a value that fits (lib.h always prints exactly that many upper-case digits)", "DOS behaves as in the model (functions 02, 3C, 3D, 3E, 3F, 40, 4C)", "command tails contain no NUL or CR; up to 17 arguments fit in the area used for argv"])
    T = C.thorough; sx.native("scc"); sx.native("sim86")
    for f in (s_memcpy, s_memset, s_strlen, s_strcmp, s_str, s_files, s_far, s_doscall, s_assert, s_bss): C.job(f.__name__[2:], f)
    for f in ("strcpy", "CopyStr"): C.job(f, s_strcpy, f)
    for f in ("puts", "PutStr", "printf", "putchar"): C.job(f, s_puts, f)
    for h in ("exit", "return from main"): C.job("exit", s_exit, h)
    I = [("%d", 0, 0, 0), ("%+d", 1, 0, 0), ("%3d", 0, 0, 3), ("%6d", 0, 0, 6), ("%05d", 0, 1, 5), ("%02d", 0, 1, 2), ("%10d", 0, 0, 10)]
    for a in I: C.job("int" + a[0], s_int, *a)
    C.job("intlit", s_int, "x%dy", 0, 0, 0, b"x", b"y"); C.job("intprintf", s_int, "n=%d\n", 0, 0, 0, b"n=", b"\n", "printf")
    for w in range(1, 5):
        for x in "xX" if w < 2 or T else "X": C.job("hex", s_hex, "%%0%d%s" % (w, "X"), w)
    n = 7 if T else 5
    for k in range(1, n + 1):
        ms = list(range(1 << k))
        for i in range(0, len(ms), 16): C.job("args", s_args, k, ms[i:i + 16])
    C.job("argshigh", s_args, 2, [2], 1)
    C.bounds = {"memcpy/memset size": 6, "string length": 8, "strcmp length": 6, "command tail": n, "integers": "all 16-bit values", "formats": [a[0] for a in I]}
    sys.exit(C.run(need=["path_pairs", "programs", "cases"]))
